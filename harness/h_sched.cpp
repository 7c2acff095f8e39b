// Task scheduler: every scenario runs the real scheduler with its real worker threads.
#include "mc.h"
#include "mg/box/Signal.h"
#include "mg/box/Time.h"
#include "mg/sch/Task.h"
#include "mg/sch/TaskScheduler.h"
#include <string.h>

using mg::sch::Task;
using mg::sch::TaskScheduler;

#define ORACLE __attribute__((section("mcoracle")))

namespace {

ORACLE int gDone;        // executions finished
ORACLE int gIn[8];       // task is being executed now
ORACLE int gRuns[8];     // executions started
ORACLE int gPosts[8];    // posts made
ORACLE int gTotal;
ORACLE int gOrder[32];
ORACLE int gOrderN;

TaskScheduler* gSched;

void enter(int id)
{
	MC_CHECKF(gIn[id] == 0, "task %d is executed by two threads at once", id);
	gIn[id] = 1;
	++gRuns[id];
	MC_CHECKF(gRuns[id] <= gPosts[id], "task %d is executed %d times with %d posts", id, gRuns[id], gPosts[id]);
	if (gOrderN < 32)
		gOrder[gOrderN++] = id;
	MC_CHECKF(&TaskScheduler::This() == gSched, "a wrong current scheduler");
}
void leave(int id) { gIn[id] = 0; }
void fin() { ++gDone; }
bool allDone(void*) { return gDone >= gTotal; }

struct Job
{
	Task task;
	int id = 0;
	int left = 0;
	int mode = 0;
	int data = 0;
};
Job* gJobs;
int gNJobs;

void post(Job* j)
{
	++gPosts[j->id];
	gSched->Post(&j->task);
}

void jobBody(Job* j, Task* t)
{
	MC_CHECKF(t == &j->task, "a wrong task in the callback");
	enter(j->id);
	int d = j->data;
	mc_point();
	j->data = d + 1;
	leave(j->id);
	if (--j->left > 0)
	{
		post(j);
		return;
	}
	if (j->mode == 1)
	{
		// Hands over to the next task.
		Job* n = &gJobs[j->id + 1];
		post(n);
	}
	fin();
}

struct Poster { int from, to; };
void posterBody(void* a)
{
	Poster* p = (Poster*)a;
	for (int i = p->from; i < p->to; ++i)
		post(&gJobs[i]);
}

}

// Posts from outside by two threads, re-posts of self, posts of other tasks from a task: each post is
// executed exactly once, never concurrently with itself, with the effects of the previous execution visible.
MC_SCENARIO(sched_exec)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int qsize = 1 + mc_choose((int)mc_param("maxq", 2));
	int script = mc_choose((int)mc_param("scripts", 5));
	// left/mode of the jobs; jobs [0, a) are posted by main, [a, b) by the other thread.
	static const struct { int n, a, b; int left[3]; int mode[3]; } SC[] = {
		{1, 1, 1, {2}, {0}},
		{2, 1, 2, {1, 1}, {0, 0}},
		{2, 2, 2, {2, 1}, {0, 0}},
		{2, 1, 1, {1, 1}, {1, 0}},
		{3, 2, 3, {1, 1, 1}, {0, 0, 0}},
		{3, 1, 2, {2, 2, 1}, {0, 1, 0}},
		{3, 3, 3, {2, 1, 2}, {0, 0, 0}},
	};
	auto& s = SC[script];
	TaskScheduler sched("m", qsize);
	gSched = &sched;
	Job* jobs = new Job[s.n];
	gJobs = jobs;
	for (int i = 0; i < s.n; ++i)
	{
		Job* j = &jobs[i];
		j->id = i;
		j->left = s.left[i];
		j->mode = s.mode[i];
		j->task.SetCallback([j](Task* t) { jobBody(j, t); });
	}
	gTotal = s.n;
	bool early = mc_choose(2);
	mc_serial_begin();
	if (early)
	{
		sched.Start(workers);
		mc_settle();
	}
	mc_serial_end();
	int th = -1;
	Poster p{s.a, s.b};
	if (s.b > s.a)
		th = mc_spawn(posterBody, &p, "poster");
	for (int i = 0; i < s.a; ++i)
		post(&jobs[i]);
	if (!early)
		sched.Start(workers);
	if (th >= 0)
		mc_join(th);
	mc_wait_until(allDone, nullptr);
	mc_serial_begin();
	sched.Stop();
	for (int i = 0; i < s.n; ++i)
	{
		MC_CHECKF(gRuns[i] == gPosts[i], "task %d: %d posts, %d executions", i, gPosts[i], gRuns[i]);
		MC_CHECK(jobs[i].data == gRuns[i]);
	}
	mc_outcome("w=%d s=%d %d%d%d", workers, script, gOrder[0], gOrder[1], gOrder[2]);
	delete[] jobs;
}

// A mix of ready, waiting, delayed and expired tasks in any order and number against the batches of the
// scheduler: each ready one is executed without a delay, the others at their own time.
MC_SCENARIO(sched_mix)
{
	int n = (int)mc_param("tasks", 5);
	int qsize = 1 + mc_choose((int)mc_param("maxq", 2));
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	bool early = mc_choose(2);
	TaskScheduler sched("m", qsize);
	gSched = &sched;
	mc_serial_begin();
	if (early)
	{
		sched.Start(workers);
		mc_settle();
	}
	mc_set_now_ns(5000000000ull);
	Job* jobs = new Job[n];
	gJobs = jobs;
	gTotal = 0;
	uint64_t now = mg::box::GetMilliseconds();
	mc_serial_end();
	int waiting = 0, delayed = 0;
	for (int i = 0; i < n; ++i)
	{
		Job* j = &jobs[i];
		j->id = i;
		j->left = 1;
		j->task.SetCallback([j](Task* t) { jobBody(j, t); });
		++gPosts[i];
		switch (mc_choose(4))
		{
		case 0: ++gTotal; sched.Post(&j->task); break;
		case 1: ++waiting; j->mode = 2; sched.PostWait(&j->task); break;
		case 2: ++delayed; j->mode = 3; sched.PostDelay(&j->task, 500); break;
		default: ++gTotal; sched.PostDeadline(&j->task, now - 1); break;
		}
	}
	if (!early)
		sched.Start(workers);
	uint64_t t0 = mc_now_ns();
	mc_wait_until(allDone, nullptr);
	MC_CHECKF(mc_now_ns() - t0 < 1000000, "a ready task is executed with a delay");
	gTotal += delayed;
	mc_wait_until(allDone, nullptr);
	MC_CHECKF(mc_now_ns() - t0 <= 501000000, "a delayed task is late");
	for (int i = 0; i < n; ++i)
	{
		MC_CHECKF(gRuns[i] == (jobs[i].mode == 2 ? 0 : 1), "task %d of kind %d is executed %d times", i, jobs[i].mode, gRuns[i]);
		if (jobs[i].mode == 2)
			jobs[i].task.PostWakeup();
	}
	gTotal += waiting;
	mc_wait_until(allDone, nullptr);
	mc_serial_begin();
	mc_settle();
	uint32_t threads = 0;
	uint64_t execs = 0, scheds = 0;
	mg::sch::TaskSchedulerThread*const* ts = sched.GetThreads(threads);
	MC_CHECK((int)threads == workers);
	for (uint32_t i = 0; i < threads; ++i)
	{
		execs += ts[i]->StatPopExecuteCount();
		scheds += ts[i]->StatPopScheduleCount();
		MC_CHECK(ts[i]->StatPopExecuteCount() == 0 && ts[i]->StatPopScheduleCount() == 0);
	}
	MC_CHECKF((int)execs == n && scheds > 0, "the statistics show %d executions and %d schedules", (int)execs, (int)scheds);
	sched.Stop();
	for (int i = 0; i < n; ++i)
		MC_CHECKF(gRuns[i] == 1, "task %d is executed %d times", i, gRuns[i]);
	mc_outcome("q=%d w=%d", waiting, workers);
	delete[] jobs;
}

///////////////////////////////////////////////////////////////////////////////////////
// Signals and wakeups.

namespace {

ORACLE int gSent;       // signals sent (calls started)
ORACLE int gSentDone;   // signal calls finished
ORACLE int gGot;        // signals received
ORACLE int gWakeReq;    // the last wakeup request started
ORACLE int gWakeSeen;   // the last request seen by an execution
ORACLE int gFinal;      // the task is gone
ORACLE int gExecs;

bool wakeSeen(void*) { return gWakeSeen >= gWakeReq; }
bool finalDone(void*) { return gFinal != 0; }
bool allReceived(void*) { return gFinal != 0; }

struct SigTask
{
	Task* task;
	int payload[4];
	int need;       // signals to receive before deletion
	int repost;     // how the task waits
	int sum;
};

void waitAgain(SigTask* s, Task* t)
{
	++gPosts[0];
	switch (s->repost)
	{
	case 0: gSched->PostWait(t); break;
	case 1: gSched->PostDelay(t, 1000); break;
	case 2: t->SetDeadline(mg::box::GetMilliseconds() + 50); t->AdjustDelay(70); gSched->Post(t); break;
	default: gSched->Post(t); break;
	}
}

void sigBody(SigTask* s, Task* t)
{
	enter(0);
	++gExecs;
	gWakeSeen = gWakeReq;
	int sent = gSent;
	bool is = t->IsSignaled();
	bool got = t->ReceiveSignal();
	if (is && !got)
		mc_fail("a signal of the task is gone without a receipt");
	if (got)
	{
		++gGot;
		MC_CHECKF(gGot <= gSent, "%d signals are received, %d are sent", gGot, gSent);
		MC_CHECKF(gSent > 0, "a signal is received before being sent");
		for (int i = 0; i < 4; ++i)
			s->sum += s->payload[i] != 0;
		// The signal is cleared by the receipt.
		if (t->ReceiveSignal())
		{
			++gGot;
			MC_CHECKF(gGot <= gSent, "a signal is received twice");
		}
	}
	(void)sent;
	bool end = got && s->need <= 1;
	if (got)
		--s->need;
	leave(0);
	if (end)
	{
		// The sender does not use the task anymore.
		delete t;
		s->task = nullptr;
		gFinal = 1;
		return;
	}
	waitAgain(s, t);
}

struct SendArg { SigTask* s; int idx; int wakes; };
void signalThread(void* a)
{
	SendArg* p = (SendArg*)a;
	p->s->payload[p->idx] = 1;
	Task* t = p->s->task;
	++gSent;
	t->PostSignal();
	++gSentDone;
}
void wakeThread(void* a)
{
	SendArg* p = (SendArg*)a;
	Task* t = p->s->task;
	for (int i = 0; i < p->wakes; ++i)
	{
		++gWakeReq;
		t->PostWakeup();
	}
}

}

// A task waiting in various ways is signaled at any moment: the signal is received, the data written before
// it is visible, the task is deleted right after the receipt, and a wakeup before that is never lost.
MC_SCENARIO(sched_signal)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int first = mc_choose(3);
	int repost = mc_choose((int)mc_param("reposts", 2));
	int wakes = mc_choose((int)mc_param("wakes", 2) + 1);
	TaskScheduler sched("m", 2);
	gSched = &sched;
	mc_serial_begin();
	sched.Start(workers);
	mc_settle();
	SigTask s = {};
	s.need = 1;
	s.repost = repost;
	SigTask* sp = &s;
	s.task = new Task([sp](Task* t) { sigBody(sp, t); });
	mc_serial_end();
	SendArg sa{&s, 0, wakes};
	// The waker and the signaler run concurrently with the post by main.
	int wt = wakes > 0 ? mc_spawn(wakeThread, &sa, "waker") : -1;
	int st = wakes > 0 ? -1 : mc_spawn(signalThread, &sa, "signaler");
	++gPosts[0];
	if (first == 0)
		sched.Post(s.task);
	else if (first == 1)
		sched.PostWait(s.task);
	else
		sched.PostDelay(s.task, 1000000);
	if (wt >= 0)
	{
		mc_join(wt);
		// Delays do not matter for a woken up task.
		uint64_t t0 = mc_now_ns();
		mc_wait_until(wakeSeen, nullptr);
		MC_CHECKF(mc_now_ns() - t0 < 1000000, "the wakeup came with a delay");
		st = mc_spawn(signalThread, &sa, "signaler");
	}
	uint64_t t0 = mc_now_ns();
	mc_join(st);
	mc_wait_until(finalDone, nullptr);
	MC_CHECKF(mc_now_ns() - t0 < 1000000, "the signal came with a delay");
	MC_CHECKF(gGot == 1, "%d signals are received, 1 is sent", gGot);
	MC_CHECKF(s.sum == 1, "the data of the signal is not visible");
	mc_outcome("w=%d first=%d re=%d wakes=%d execs=%d", workers, first, repost, wakes, gExecs);
	mc_serial_begin();
	sched.Stop();
}

// Two senders: signals may collapse, but the last one is always received, and none twice.
namespace {
void sigBody2(SigTask* s, Task* t)
{
	enter(0);
	++gExecs;
	if (t->ReceiveSignal())
	{
		++gGot;
		MC_CHECKF(gGot <= gSent, "%d signals are received, %d are sent", gGot, gSent);
		// What was sent before is seen now.
		s->sum = 0;
		for (int i = 0; i < 2; ++i)
			s->sum += __atomic_load_n(&s->payload[i], __ATOMIC_RELAXED);
	}
	leave(0);
	if (s->sum == 2)
	{
		gFinal = 1;
		return;
	}
	waitAgain(s, t);
}
void signalThread2(void* a)
{
	SendArg* p = (SendArg*)a;
	__atomic_store_n(&p->s->payload[p->idx], 1, __ATOMIC_RELAXED);
	++gSent;
	p->s->task->PostSignal();
}
void selfSignalBody(SigTask* s, Task* t)
{
	enter(0);
	++gExecs;
	int step = s->need++;
	bool got = t->ReceiveSignal();
	leave(0);
	if (step == 0)
	{
		// Signaled (woken up) during the execution: runs again at once despite the infinite wait.
		MC_CHECK(!got);
		if (s->repost == 0)
			t->PostSignal();
		else if (s->repost == 1)
			t->PostWakeup();
		else if (s->repost == 2)
		{
			t->PostSignal();
			t->PostWakeup();
		}
		else
		{
			t->PostWakeup();
			t->PostSignal();
		}
		MC_CHECK(t->IsSignaled() == (s->repost != 1));
		++gPosts[0];
		gSched->PostWait(t);
		return;
	}
	MC_CHECKF(got == (s->repost != 1), "the signal sent by the task to itself is %s", got ? "made up" : "lost");
	gFinal = 1;
}
}
MC_SCENARIO(sched_signal_two)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	TaskScheduler sched("m", 2);
	gSched = &sched;
	mc_serial_begin();
	sched.Start(workers);
	mc_settle();
	SigTask s = {};
	SigTask* sp = &s;
	Task task([sp](Task* t) { sigBody2(sp, t); });
	s.task = &task;
	++gPosts[0];
	if (mc_choose(2))
		sched.PostWait(&task);
	else
		sched.Post(&task);
	mc_serial_end();
	SendArg a0{&s, 0, 0}, a1{&s, 1, 0};
	int t0 = mc_spawn(signalThread2, &a0, "signaler");
	int t1 = mc_spawn(signalThread2, &a1, "signaler");
	mc_join(t0);
	mc_join(t1);
	mc_wait_until(finalDone, nullptr);
	mc_outcome("w=%d execs=%d got=%d", workers, gExecs, gGot);
	mc_serial_begin();
	sched.Stop();
}
MC_SCENARIO(sched_self_signal)
{
	int workers = 1 + mc_choose(2);
	TaskScheduler sched("m", 1 + mc_choose(2));
	gSched = &sched;
	mc_serial_begin();
	sched.Start(workers);
	mc_settle();
	SigTask s = {};
	s.repost = mc_choose(4);
	SigTask* sp = &s;
	Task task([sp](Task* t) { selfSignalBody(sp, t); });
	mc_serial_end();
	++gPosts[0];
	sched.Post(&task);
	mc_wait_until(finalDone, nullptr);
	mc_outcome("%d %d", workers, s.repost);
	mc_serial_begin();
	sched.Stop();
}

///////////////////////////////////////////////////////////////////////////////////////
// Deadlines.

namespace {

struct DlTask
{
	Task* task;
	int id;
	int left;
	int mode;
	uint64_t deadline;   // effective deadline of the current post
	uint64_t postTime;
	bool woken;
};
ORACLE int gWoken[8];
ORACLE uint64_t gDlAt[8];

uint64_t nowMs() { return mc_now_ns() / 1000000; }

// Sets up the waiting in one of the equivalent or different ways, returns the effective deadline.
uint64_t setDeadline(Task* t, int mode, bool fresh)
{
	uint64_t now = nowMs();
	struct NoTicks
	{
		bool on = mc_param("tick", 0) != 0;
		NoTicks() { if (on) mc_atomic_begin(); }
		~NoTicks() { if (on) mc_atomic_end(); }
	} noTicks;
	switch (mode)
	{
	case 0:
		// No deadline is the earliest one.
		if (fresh)
			t->AdjustDelay(3);
		MC_CHECK(t->GetDeadline() == 0);
		return 0;
	case 1: t->SetDelay(2); MC_CHECK(t->GetDeadline() == now + 2); return now + 2;
	case 2: t->SetDeadline(now + 1); return now + 1;
	case 3: t->SetDeadline(now + 3); t->AdjustDelay(5); MC_CHECK(t->GetDeadline() == now + 3); return now + 3;
	case 4: t->SetWait(); t->AdjustDelay(2); t->AdjustDeadline(now + 4); MC_CHECK(t->GetDeadline() == now + 2); return now + 2;
	case 5: t->SetDelay(4); t->AdjustDeadline(now + 1); MC_CHECK(t->GetDeadline() == now + 1); return now + 1;
	case 6: t->SetDelay(0); return now;
	case 7: t->SetDeadline(now > 10 ? now - 10 : 0); return now - 10;
	case 8: t->SetDeadline(MG_TIME_INFINITE - 1); return MG_TIME_INFINITE - 1;
	case 9: t->SetDelay(UINT32_MAX); MC_CHECK(t->GetDeadline() == now + UINT32_MAX); return now + UINT32_MAX;
	default: t->SetWait(); return MG_TIME_INFINITE;
	}
}
int gExact;

void dlBody(DlTask* d, Task* t)
{
	enter(d->id);
	uint64_t now = nowMs();
	uint64_t dl = gDlAt[d->id];
	bool woken = gWoken[d->id] != 0;
	bool expired = t->IsExpired();
	mc_outcome("id=%d mode=%d woken=%d expired=%d", d->id, d->mode, woken, expired);
	MC_CHECKF(now >= dl || woken, "the task is executed at %llu before its deadline %llu", (unsigned long long)now, (unsigned long long)dl);
	if (now < dl)
		MC_CHECKF(!expired, "the task is woken up early but thinks its deadline has passed");
	if (!woken)
		MC_CHECKF(expired, "the task has reached its deadline but is not expired");
	if (gExact && !woken)
	{
		uint64_t want = dl > d->postTime ? dl : d->postTime;
		// The time may go on between reading of the clock and going to sleep.
		uint64_t lag = mc_last_tick_ns() ? (uint64_t)mc_param("tick", 0) : 0;
		MC_CHECKF(now >= want && now <= want + lag, "the task is executed at %llu, it was due at %llu", (unsigned long long)now, (unsigned long long)want);
	}
	MC_CHECKF(t->GetDeadline() == 0, "the old deadline is kept");
	leave(d->id);
	if (--d->left > 0)
	{
		gWoken[d->id] = 0;
		++gPosts[d->id];
		d->postTime = now;
		gDlAt[d->id] = setDeadline(t, d->mode, false);
		gSched->Post(t);
		return;
	}
	++gDone;
}
void dlWaker(void* a)
{
	DlTask* d = (DlTask*)a;
	++gWoken[d->id];
	d->task->PostWakeup();
}
}

// Several tasks with different deadlines, re-posted with new ones: none runs early, none is late when the
// workers are idle, the expiration flag and the deadline reset are right, one worker follows deadline order.
MC_SCENARIO(sched_deadline)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int n = (int)mc_param("tasks", 2);
	gExact = (int)mc_param("exact", 1);
	TaskScheduler sched("m", 2);
	gSched = &sched;
	mc_serial_begin();
	bool early = mc_choose(2);
	if (early)
	{
		sched.Start(workers);
		mc_settle();
	}
	DlTask d[4];
	for (int i = 0; i < n; ++i)
	{
		DlTask* p = &d[i];
		memset((void*)p, 0, sizeof(*p));
		p->id = i;
		p->mode = mc_choose((int)mc_param("modes", 8));
		p->left = 1 + (i == 0 && n < 3);
		p->task = new Task([p](Task* t) { dlBody(p, t); });
	}
	if (n == 3 && d[2].mode < d[1].mode)
		mc_discard();
	gTotal = n;
	mc_serial_end();
	for (int i = 0; i < n; ++i)
	{
		++gPosts[i];
		d[i].postTime = nowMs();
		gDlAt[i] = setDeadline(d[i].task, d[i].mode, true);
		sched.Post(d[i].task);
	}
	if (!early)
		sched.Start(workers);
	mc_wait_until(allDone, nullptr);
	mc_serial_begin();
	sched.Stop();
	for (int i = 0; i < n; ++i)
		delete d[i].task;
}

// Many tasks, sequential driver: the order of execution by one worker is the deadline order and the virtual
// time of each execution is exact; far and infinite deadlines do not fire.
MC_SCENARIO(sched_deadline_order)
{
	int n = (int)mc_param("tasks", 4);
	gExact = 1;
	TaskScheduler sched("m", 1 + mc_choose(3));
	gSched = &sched;
	mc_serial_begin();
	DlTask d[8];
	for (int i = 0; i < n; ++i)
	{
		DlTask* p = &d[i];
		memset((void*)p, 0, sizeof(*p));
		p->id = i;
		static const int modes[] = {0, 1, 2, 3, 8, 9, 10};
		p->mode = modes[mc_choose((int)mc_param("modes", 7))];
		p->left = 1;
		p->task = new Task([p](Task* t) { dlBody(p, t); });
		if (p->mode < 8)
			++gTotal;
	}
	bool early = mc_choose(2);
	if (early)
	{
		sched.Start(1);
		mc_settle();
	}
	for (int i = 0; i < n; ++i)
	{
		++gPosts[i];
		d[i].postTime = nowMs();
		gDlAt[i] = setDeadline(d[i].task, d[i].mode, true);
		sched.Post(d[i].task);
	}
	if (!early)
		sched.Start(1);
	mc_wait_until(allDone, nullptr);
	mc_settle();
	for (int i = 1; i < gOrderN; ++i)
		MC_CHECKF(gDlAt[gOrder[i - 1]] <= gDlAt[gOrder[i]] , "tasks are executed not in the deadline order");
	MC_CHECKF(gDone == gTotal, "a task with a far deadline is executed");
	// The far ones are woken up explicitly, once each.
	for (int i = 0; i < n; ++i)
		if (d[i].mode >= 8)
		{
			++gTotal;
			dlWaker(&d[i]);
		}
	mc_wait_until(allDone, nullptr);
	mc_settle();
	for (int i = 0; i < n; ++i)
		MC_CHECK(gRuns[i] == 1);
	sched.Stop();
	for (int i = 0; i < n; ++i)
		delete d[i].task;
}

// More tasks expire while the worker is busy than one scheduling step takes, some are woken up meanwhile.
// After the first execution the target waits for long and is woken up before its deadline.
namespace {
ORACLE int gBusy;
ORACLE int gRacing;
ORACLE int gFree;
bool isFree(void*) { return gFree == 1; }
void expBody(DlTask* d, Task* t)
{
	enter(d->id);
	uint64_t now = nowMs();
	bool woken = gWoken[d->id] != 0;
	bool expired = t->IsExpired();
	MC_CHECKF(now >= gDlAt[d->id] || woken, "the task is executed at %llu before its deadline %llu",
		(unsigned long long)now, (unsigned long long)gDlAt[d->id]);
	if (now < gDlAt[d->id])
		MC_CHECKF(!expired, "the task is woken up early but thinks its deadline has passed");
	if (!woken)
		MC_CHECKF(expired, "the task has reached its deadline but is not expired");
	MC_CHECKF(t->GetDeadline() == 0, "the old deadline is kept");
	leave(d->id);
	if (--d->left > 0)
	{
		// The racing wakeup might be late for this execution.
		if (!gRacing)
			gWoken[d->id] = 0;
		++gPosts[d->id];
		if (d->mode)
		{
			t->SetWait();
			gDlAt[d->id] = MG_TIME_INFINITE;
		}
		else
		{
			t->SetDelay(100);
			gDlAt[d->id] = now + 100;
		}
		gSched->Post(t);
	}
	++gDone;
}
}
MC_SCENARIO(sched_expire_many)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 1));
	int n = 1 + mc_choose((int)mc_param("tasks", 4));
	TaskScheduler sched("m", 1 + mc_choose(2));
	gSched = &sched;
	mc_serial_begin();
	sched.Start(workers);
	mc_settle();
	DlTask d[8];
	memset((void*)d, 0, sizeof(d));
	int target = mc_choose(n);
	int wake = mc_choose(3); // nobody, while expired, before expiration
	int busy = mc_choose(2); // how long the worker is busy
	uint64_t t0 = nowMs();
	for (int i = 0; i < n; ++i)
	{
		DlTask* p = &d[i];
		p->id = i;
		p->left = 1 + (i == target);
		p->mode = i == target ? mc_choose(2) : 0;
		uint32_t delay = i == target ? 5 : 5 + mc_choose(3) - 1;
		gDlAt[i] = t0 + delay;
		p->task = new Task([p](Task* t) { expBody(p, t); });
		p->task->SetDeadline(gDlAt[i]);
		++gPosts[i];
		sched.Post(p->task);
	}
	mc_settle();
	for (int i = 0; i < workers; ++i)
		sched.PostOneShot([]() { ++gBusy; mc_wait_until(isFree, nullptr); });
	mc_settle();
	MC_CHECK(gBusy == workers);
	if (wake == 2)
	{
		mg::box::Sleep(3);
		dlWaker(&d[target]);
	}
	mg::box::Sleep(busy ? 20 : 5);
	mc_serial_end();
	gTotal = n;
	gFree = 1;
	bool before = false;
	if (wake == 1)
	{
		gRacing = 1;
		dlWaker(&d[target]);
		before = gRuns[target] == 0;
	}
	mc_wait_until(allDone, nullptr);
	mc_serial_begin();
	mg::box::Sleep(2);
	mc_settle();
	gRacing = 0;
	// A wakeup which came when the task had been executed is for the next execution.
	bool early = gRuns[target] == 2;
	MC_CHECKF(!early || (wake == 1 && !before), "one post is executed more than once");
	for (int i = 0; i < n; ++i)
		MC_CHECKF(gRuns[i] == 1 + (i == target && early), "task %d is executed %d times", i, gRuns[i]);
	if (!early)
	{
		gTotal = n + 1;
		mg::box::Sleep(50);
		MC_CHECKF(gRuns[target] == 1, "a waiting task is executed");
		dlWaker(&d[target]);
		mc_wait_until(allDone, nullptr);
		mc_settle();
		MC_CHECK(gRuns[target] == 2);
	}
	mg::box::Sleep(200);
	MC_CHECKF(gRuns[target] == 2, "one post is executed more than once");
	MC_CHECKF(sched.WaitEmpty(mg::box::TimeDuration(1000)), "an idle scheduler is not empty");
	mc_outcome("n=%d wake=%d busy=%d early=%d", n, wake, busy, early);
	sched.Stop();
	for (int i = 0; i < n; ++i)
		delete d[i].task;
}

// A wakeup racing with the expiration of the deadline: executed once for one post.
MC_SCENARIO(sched_deadline_wakeup)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	gExact = 0;
	TaskScheduler sched("m", 2);
	gSched = &sched;
	mc_serial_begin();
	sched.Start(workers);
	mc_settle();
	DlTask d[2];
	memset((void*)d, 0, sizeof(d));
	for (int i = 0; i < 2; ++i)
	{
		DlTask* p = &d[i];
		p->id = i;
		p->left = 1;
		p->task = new Task([p](Task* t) { dlBody(p, t); });
	}
	d[0].mode = 1 + mc_choose(2);
	d[1].mode = mc_choose(2) ? 2 : 10;
	int wtime = mc_choose(3);
	gTotal = 2;
	mc_serial_end();
	int w = mc_spawn(dlWaker, &d[1], "waker");
	for (int i = 0; i < 2; ++i)
	{
		++gPosts[i];
		d[i].postTime = nowMs();
		gDlAt[i] = setDeadline(d[i].task, d[i].mode, true);
		sched.Post(d[i].task);
	}
	if (wtime)
		mg::box::Sleep(wtime);
	dlWaker(&d[0]);
	mc_join(w);
	mc_wait_until(allDone, nullptr);
	mc_serial_begin();
	mc_settle();
	MC_CHECKF(gRuns[0] == 1 && gRuns[1] == 1, "one post is executed more than once");
	sched.Stop();
	for (int i = 0; i < 2; ++i)
		delete d[i].task;
}

///////////////////////////////////////////////////////////////////////////////////////
// Order.

namespace {
struct OrdTask { Task task; int who; int num; int again; };
ORACLE int gStarted[2];     // tasks of each poster started
ORACLE int gMaxStarted[2];
ORACLE uint32_t gStartedMask[2];
int gWorkers;
void ordBody(OrdTask* o, Task*)
{
	int w = o->who;
	gStartedMask[w] |= 1u << o->num;
	int missing = 0;
	for (int i = 0; i < o->num; ++i)
		missing += (gStartedMask[w] & (1u << i)) == 0;
	MC_CHECKF(missing < gWorkers, "a task is started when %d tasks posted before it by the same thread are not, with %d workers", missing, gWorkers);
	mc_point();
	++gDone;
}
struct OrdPoster { OrdTask* t; int n; };
void ordPoster(void* a)
{
	OrdPoster* p = (OrdPoster*)a;
	for (int i = 0; i < p->n; ++i)
		gSched->Post(&p->t[i].task);
}
}
MC_SCENARIO(sched_fifo)
{
	gWorkers = 1 + mc_choose((int)mc_param("workers", 2));
	int qsize = 1 + mc_choose((int)mc_param("maxq", 3));
	int n = (int)mc_param("tasks", 4);
	int other = (int)mc_param("other", 2);
	TaskScheduler sched("m", qsize);
	gSched = &sched;
	mc_serial_begin();
	bool early = mc_choose(2);
	if (early)
	{
		sched.Start(gWorkers);
		mc_settle();
	}
	OrdTask* t = new OrdTask[n + other];
	for (int i = 0; i < n + other; ++i)
	{
		OrdTask* o = &t[i];
		o->who = i >= n;
		o->num = i >= n ? i - n : i;
		o->task.SetCallback([o](Task* tt) { ordBody(o, tt); });
	}
	gTotal = n + other;
	mc_serial_end();
	OrdPoster p0{t, n}, p1{t + n, other};
	int th = other > 0 ? mc_spawn(ordPoster, &p1, "poster") : -1;
	ordPoster(&p0);
	if (th >= 0)
		mc_join(th);
	mc_serial_begin();
	if (!early)
		sched.Start(gWorkers);
	mc_serial_end();
	mc_wait_until(allDone, nullptr);
	mc_serial_begin();
	sched.Stop();
	mc_outcome("w=%d q=%d early=%d", gWorkers, qsize, early);
	delete[] t;
}

///////////////////////////////////////////////////////////////////////////////////////
// Emptiness, stop, restart.

namespace {
bool emptyProbe(TaskScheduler& s, int how)
{
	if (how == 0)
		return s.IsEmpty();
	if (how == 1)
		return s.WaitEmpty(mg::box::TimeDuration(0));
	return s.WaitEmpty();
}
}
// The scheduler says it is empty only when everything posted before is finished, including what the
// tasks posted themselves, and the results are visible without other synchronization.
MC_SCENARIO(sched_empty)
{
	int minw = (int)mc_param("minw", 1);
	int workers = minw + mc_choose((int)mc_param("workers", 2) + 1 - minw);
	int qsize = 1 + mc_choose((int)mc_param("maxq", 2));
	int first = (int)mc_param("first", 0);
	int script = first + mc_choose((int)mc_param("scripts", 4));
	int how = mc_choose((int)mc_param("how", 3));
	static const struct { int n; int posted; int left[3]; int mode[3]; } SC[] = {
		{1, 1, {2}, {0}},
		{2, 2, {1, 1}, {0, 0}},
		{2, 1, {1, 1}, {1, 0}},
		{3, 2, {1, 1, 1}, {0, 1, 0}},
		{1, 1, {1}, {0}},
	};
	auto& s = SC[script];
	Job* jobs = new Job[s.n];
	gJobs = jobs;
	{
		TaskScheduler sched("m", qsize);
		gSched = &sched;
		mc_serial_begin();
		sched.Start(workers);
		mc_settle();
		gTotal = s.n;
		for (int i = 0; i < s.n; ++i)
		{
			Job* j = &jobs[i];
			j->id = i;
			j->left = s.left[i];
			j->mode = s.mode[i];
			j->task.SetCallback([j](Task* t) { jobBody(j, t); });
		}
		MC_CHECKF(sched.WaitEmpty(mg::box::TimeDuration(1000)), "an idle scheduler is not empty");
		mc_serial_end();
		for (int i = 0; i < s.posted; ++i)
			post(&jobs[i]);
		bool empty = emptyProbe(sched, how);
		mc_outcome("s=%d how=%d empty=%d", script, how, empty);
		if (how == 2)
			MC_CHECKF(empty, "infinite waiting for emptiness gave up");
		if (empty)
		{
			MC_CHECKF(gDone == gTotal, "the scheduler is empty when %d of %d tasks are finished", gDone, gTotal);
			for (int i = 0; i < s.n; ++i)
				MC_CHECKF(jobs[i].data == s.left[i], "the results of the tasks are not visible");
		}
		else
		{
			mc_wait_until(allDone, nullptr);
			mc_serial_begin();
			mc_settle();
			MC_CHECKF(sched.WaitEmpty(mg::box::TimeDuration(1000)), "the idle scheduler is not empty");
			mc_serial_end();
		}
		mc_serial_begin();
	}
	delete[] jobs;
}

// The scheduler is never empty while a posted task is not finished, whoever executes it.
namespace {
ORACLE int gOpen;
bool isOpen(void*) { return gOpen != 0; }
}
MC_SCENARIO(sched_empty_gate)
{
	int workers = (int)mc_param("workers", 2);
	TaskScheduler sched("m", 2);
	gSched = &sched;
	mc_serial_begin();
	sched.Start(workers);
	mc_settle();
	// Swap the roles of the workers: one executes a task, the other one takes over the scheduling.
	int swaps = mc_choose(workers);
	for (int i = 0; i < swaps; ++i)
	{
		sched.PostOneShot([]() { mc_wait_until(isOpen, nullptr); });
		mc_settle();
	}
	gOpen = 1;
	mc_settle();
	gOpen = 0;
	MC_CHECKF(sched.WaitEmpty(mg::box::TimeDuration(1000)), "an idle scheduler is not empty");
	int n = 1 + mc_choose((int)mc_param("tasks", 1));
	bool gate = mc_choose(2);
	Job* jobs = new Job[2];
	for (int i = 0; i < n; ++i)
	{
		Job* j = &jobs[i];
		j->id = i;
		j->task.SetCallback([j, gate](Task*) {
			enter(j->id);
			if (gate)
				mc_wait_until(isOpen, nullptr);
			else
				mc_point();
			j->data = 1;
			leave(j->id);
			fin();
		});
	}
	gTotal = n;
	mc_serial_end();
	for (int i = 0; i < n; ++i)
		post(&jobs[i]);
	bool empty = sched.IsEmpty();
	if (empty)
	{
		MC_CHECKF(gDone == gTotal, "the scheduler is empty when %d of %d tasks are finished", gDone, gTotal);
		for (int i = 0; i < n; ++i)
			MC_CHECKF(jobs[i].data == 1, "the results of the tasks are not visible");
	}
	mc_serial_begin();
	gOpen = 1;
	mc_wait_until(allDone, nullptr);
	mc_settle();
	MC_CHECKF(sched.WaitEmpty(mg::box::TimeDuration(1000)), "the idle scheduler is not empty");
	mc_outcome("n=%d gate=%d empty=%d", n, gate, empty);
	sched.Stop();
	delete[] jobs;
}

// Waiting and delayed tasks around the ordinary ones: more than one scheduling step takes. Nothing which is ready or has a
// deadline is forgotten when the emptiness is checked.
MC_SCENARIO(sched_empty_waiting)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 1));
	int n = (int)mc_param("tasks", 3);
	TaskScheduler sched("m", 1);
	gSched = &sched;
	mc_serial_begin();
	sched.Start(workers);
	mc_settle();
	Job* jobs = new Job[n];
	int nready = 0, ndelay = 0;
	for (int i = 0; i < n; ++i)
	{
		Job* j = &jobs[i];
		j->id = i;
		j->mode = mc_choose(3);
		nready += j->mode == 0;
		ndelay += j->mode == 2;
		++gPosts[i];
		j->task.SetCallback([j](Task*) {
			enter(j->id);
			mc_point();
			j->data = 1;
			leave(j->id);
			fin();
		});
	}
	int probes = 1 + mc_choose(2);
	mc_serial_end();
	for (int i = 0; i < n; ++i)
	{
		if (jobs[i].mode == 0)
			sched.Post(&jobs[i].task);
		else if (jobs[i].mode == 1)
			sched.PostWait(&jobs[i].task);
		else
			sched.PostDelay(&jobs[i].task, 100);
	}
	bool empty = false;
	for (int k = 0; k < probes && !empty; ++k)
	{
		empty = sched.IsEmpty();
		if (empty)
		{
			MC_CHECKF(ndelay == 0, "the scheduler is empty having delayed tasks");
			for (int i = 0; i < n; ++i)
				MC_CHECKF(jobs[i].mode == 1 || jobs[i].data == 1, "the scheduler is empty having not executed tasks");
		}
	}
	gTotal = nready + ndelay;
	mc_wait_until(allDone, nullptr);
	mc_serial_begin();
	mc_settle();
	MC_CHECKF(sched.WaitEmpty(mg::box::TimeDuration(1000)), "an idle scheduler is not empty");
	gTotal = n;
	for (int i = 0; i < n; ++i)
		if (jobs[i].mode == 1)
			jobs[i].task.PostWakeup();
	mc_wait_until(allDone, nullptr);
	mc_settle();
	for (int i = 0; i < n; ++i)
		MC_CHECK(gRuns[i] == 1);
	mc_outcome("r=%d d=%d empty=%d", nready, ndelay, empty);
	sched.Stop();
	delete[] jobs;
}

// The destructor waits for everything. Waiting tasks make the scheduler not empty.
MC_SCENARIO(sched_destroy)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int left = 1 + mc_choose(2);
	Job* jobs = new Job[2];
	gJobs = jobs;
	{
		TaskScheduler sched("m", 2);
		gSched = &sched;
		mc_serial_begin();
		sched.Start(workers);
		mc_settle();
		for (int i = 0; i < 2; ++i)
		{
			Job* j = &jobs[i];
			j->id = i;
			j->left = left;
			j->task.SetCallback([j](Task* t) { jobBody(j, t); });
		}
		int delay = mc_choose(3);
		mc_serial_end();
		++gPosts[0];
		sched.PostDelay(&jobs[0].task, delay);
		post(&jobs[1]);
	}
	MC_CHECKF(gDone == 2, "the scheduler is destroyed with unfinished tasks");
	MC_CHECK(jobs[0].data == left && jobs[1].data == left);
	mc_outcome("left=%d", left);
	delete[] jobs;
}

// Waiting with a limit while a task sleeps; the limit is respected, then the task is woken up.
MC_SCENARIO(sched_wait_limit)
{
	int workers = 1 + mc_choose(2);
	TaskScheduler sched("m", 2);
	gSched = &sched;
	mc_serial_begin();
	sched.Start(workers);
	mc_settle();
	Job* j = new Job();
	j->left = 1;
	gJobs = j;
	gTotal = 1;
	j->task.SetCallback([j](Task* t) { jobBody(j, t); });
	int kind = 1 + mc_choose(2);
	static const uint64_t lims[] = {0, 5, 15, 30};
	uint64_t lim = lims[mc_choose(4)];
	bool asPoint = mc_choose(2);
	mc_serial_end();
	++gPosts[0];
	uint64_t t0 = nowMs();
	if (kind == 1)
		sched.PostDelay(&j->task, 20);
	else
		sched.PostDelay(&j->task, 1000);
	bool ok = asPoint ? sched.WaitEmpty(mg::box::TimePoint(t0 + lim)) : sched.WaitEmpty(mg::box::TimeDuration(lim));
	uint64_t t1 = nowMs();
	mc_outcome("kind=%d lim=%d ok=%d dt=%d", kind, (int)lim, ok, (int)(t1 - t0));
	if (ok)
		MC_CHECKF(gDone == 1, "waiting for emptiness finished before the task");
	else
		MC_CHECKF(gDone == 1 || t1 >= t0 + lim, "waiting for emptiness gave up too early");
	if (kind != 1)
		MC_CHECKF(!ok, "the scheduler with a waiting task is empty");
	if (!ok)
	{
		j->task.PostWakeup();
		MC_CHECK(sched.WaitEmpty());
		MC_CHECK(gDone == 1);
	}
	mc_serial_begin();
	sched.Stop();
	delete j;
}

// Stop at any moment with work in progress, posts while stopped, and a new start: nothing is lost or doubled.
MC_SCENARIO(sched_restart)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int workers2 = 1 + mc_choose(2);
	int qsize = 1 + mc_choose(2);
	TaskScheduler sched("m", qsize);
	gSched = &sched;
	Job* jobs = new Job[4];
	gJobs = jobs;
	for (int i = 0; i < 4; ++i)
	{
		Job* j = &jobs[i];
		j->id = i;
		j->left = i == 0 ? 2 : 1;
		j->task.SetCallback([j](Task* t) { jobBody(j, t); });
	}
	gTotal = 3;
	mc_serial_begin();
	sched.Start(workers);
	if (mc_choose(2))
		mc_settle();
	mc_serial_end();
	post(&jobs[0]);
	++gPosts[1];
	if (mc_choose(2))
		sched.PostDelay(&jobs[1].task, 5);
	else
		sched.Post(&jobs[1].task);
	sched.Stop();
	int done = gDone;
	mc_point();
	MC_CHECKF(done == gDone, "a task is executed after the stop");
	mc_serial_begin();
	post(&jobs[2]);
	uint32_t cnt = 1;
	sched.GetThreads(cnt);
	MC_CHECK(cnt == 0);
	// The second stop does nothing.
	sched.Stop();
	mc_serial_end();
	sched.Start(workers2);
	mc_wait_until(allDone, nullptr);
	mc_serial_begin();
	sched.Stop();
	for (int i = 0; i < 3; ++i)
		MC_CHECKF(gRuns[i] == jobs[i].data && gRuns[i] == (i == 0 ? 2 : 1), "a task is executed %d times", gRuns[i]);
	mc_outcome("w=%d w2=%d done=%d", workers, workers2, done);
	delete[] jobs;
}

// Nothing which takes the scheduler's role waits for the deadlines of the tasks: a stop, an emptiness check.
namespace {
void roleThread(void* a) { (void)((TaskScheduler*)a)->IsEmpty(); }
}
MC_SCENARIO(sched_stop_wait)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int kind = mc_choose(3);
	TaskScheduler sched("m", 2);
	gSched = &sched;
	Job* jobs = new Job[2];
	gJobs = jobs;
	for (int i = 0; i < 2; ++i)
	{
		Job* j = &jobs[i];
		j->id = i;
		j->left = 1;
		j->task.SetCallback([j](Task* t) { jobBody(j, t); });
	}
	gTotal = 2;
	mc_serial_begin();
	sched.Start(workers);
	++gPosts[1];
	sched.PostDelay(&jobs[1].task, 1000);
	mc_settle();
	mc_serial_end();
	int t = -1;
	if (kind == 1)
		t = mc_spawn(roleThread, &sched, "checker");
	uint64_t t0 = mc_now_ns();
	if (kind == 2)
	{
		MC_CHECK(!sched.IsEmpty());
		MC_CHECKF(mc_now_ns() - t0 < 1000000, "the check took %llu ms", (unsigned long long)(mc_now_ns() - t0) / 1000000);
	}
	post(&jobs[0]);
	sched.Stop();
	MC_CHECKF(mc_now_ns() - t0 < 1000000, "the stop took %llu ms", (unsigned long long)(mc_now_ns() - t0) / 1000000);
	if (t >= 0)
		mc_join(t);
	MC_CHECK(gRuns[1] == 0);
	mc_serial_begin();
	sched.Start(1);
	mc_wait_until(allDone, nullptr);
	MC_CHECKF(mc_now_ns() - t0 >= 1000000000ull, "the delayed task is too early");
	sched.Stop();
	mc_outcome("w=%d k=%d", workers, kind);
	delete[] jobs;
}

///////////////////////////////////////////////////////////////////////////////////////
// One-shots, two schedulers.

namespace {
ORACLE int gShots;
TaskScheduler* gSched2;
bool shotsDone(void*) { return gShots >= gTotal; }
struct Shot { int* p; int val; Shot(int* a, int v) : p(a), val(v) {} };
}
MC_SCENARIO(sched_one_shot)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int res[3] = {};
	{
		TaskScheduler sched("m", 2);
		gSched = &sched;
		mc_serial_begin();
		sched.Start(workers);
		mc_settle();
		mc_serial_end();
		gTotal = 3;
		for (int i = 0; i < 2; ++i)
		{
			int* mem = new int(i);
			int* out = &res[i];
			sched.PostOneShot([mem, out, i, &res]() {
				*out += *mem + 10;
				delete mem;
				++gShots;
				if (i == 0)
					TaskScheduler::This().PostOneShot([&res]() { ++res[2]; ++gShots; });
			});
		}
		mc_wait_until(shotsDone, nullptr);
		mc_serial_begin();
		MC_CHECK(sched.WaitEmpty());
		sched.Stop();
	}
	MC_CHECKF(gShots == 3 && res[0] == 10 && res[1] == 11 && res[2] == 1, "one-shot callbacks are not executed exactly once");
	mc_outcome("w=%d", workers);
}

// A task travels between two schedulers.
namespace {
struct Trav { Task task; int step; int data; };
ORACLE int gTravIn;
void travBody(Trav* v, Task* t)
{
	MC_CHECKF(gTravIn == 0, "the task is executed by two threads at once");
	gTravIn = 1;
	TaskScheduler* want = v->step % 2 == 0 ? gSched : gSched2;
	MC_CHECKF(&TaskScheduler::This() == want, "the task is executed in a wrong scheduler");
	++v->data;
	mc_point();
	int step = ++v->step;
	gTravIn = 0;
	if (step == 4)
	{
		++gDone;
		return;
	}
	(step % 2 == 0 ? gSched : gSched2)->Post(t);
}
}
MC_SCENARIO(sched_two)
{
	TaskScheduler s1("1", 2), s2("2", 2);
	gSched = &s1;
	gSched2 = &s2;
	mc_serial_begin();
	s1.Start(1 + mc_choose((int)mc_param("workers", 1)));
	s2.Start(1);
	mc_settle();
	mc_serial_end();
	Trav* v = new Trav();
	v->step = v->data = 0;
	v->task.SetCallback([v](Task* t) { travBody(v, t); });
	gTotal = 1;
	s1.Post(&v->task);
	mc_wait_until(allDone, nullptr);
	mc_serial_begin();
	MC_CHECK(s1.WaitEmpty() && s2.WaitEmpty());
	s1.Stop();
	s2.Stop();
	MC_CHECK(v->data == 4);
	delete v;
	mc_outcome("ok");
}

///////////////////////////////////////////////////////////////////////////////////////
// Coroutine tasks.

#include "mg/box/Coro.h"

namespace {
using mg::box::Coro;

struct CoTask
{
	Task* task = nullptr;
	mg::box::Signal* done = nullptr;
	int mode = 0;
	int data[4] = {};
	int sum = 0;
	uint64_t dl = 0;
};
ORACLE int gCoAlive;    // objects living in the coroutine frames
ORACLE int gAfterExit;
struct Guard
{
	Guard() { ++gCoAlive; }
	Guard(const Guard&) { ++gCoAlive; }
	~Guard() { --gCoAlive; }
};

void preYield(CoTask* c)
{
	++gPosts[0];
	leave(0);
	(void)c;
}

Coro coInner(CoTask* c, int depth)
{
	Guard g;
	int loc = c->data[0];
	preYield(c);
	co_await c->task->AsyncYield();
	enter(0);
	MC_CHECKF(loc == c->data[0], "local variables of a coroutine are lost");
	c->data[0] = loc + 1;
	if (depth > 0)
		co_await mg::box::CoroCall(coInner(c, depth - 1));
	co_return;
}

// Yields, nested calls, then leaves in one of the ways.
Coro coBody(CoTask* c)
{
	Guard g;
	enter(0);
	int loc = 77;
	for (int i = 0; i < 2; ++i)
	{
		preYield(c);
		co_await c->task->AsyncYield();
		enter(0);
		MC_CHECK(loc == 77 && c->data[1] == i);
		++c->data[1];
	}
	co_await mg::box::CoroCall(coInner(c, 1));
	MC_CHECKF(c->data[0] == 2, "a nested coroutine call returned before its end");
	MC_CHECKF(gCoAlive == 1, "a finished nested coroutine is not destroyed");
	switch (c->mode)
	{
	case 0:
		leave(0);
		++gDone;
		co_await c->task->AsyncExitDelete();
		break;
	case 1:
	{
		CoTask* cc = c;
		leave(0);
		co_await c->task->AsyncExitExec([cc](Task* t) {
			MC_CHECK(t == cc->task);
			MC_CHECKF(gCoAlive == 0, "the coroutine is not destroyed at exit");
			delete t;
			++gDone;
		});
		break;
	}
	case 2:
	{
		leave(0);
		++gDone;
		co_await c->task->AsyncExitSendSignal(*c->done);
		break;
	}
	default:
	{
		// Exit from a nested coroutine.
		co_await mg::box::CoroCall([](CoTask* c) -> Coro {
			Guard g;
			leave(0);
			++gDone;
			if (c->mode == 3)
				co_await c->task->AsyncExitDelete();
			else
				co_await c->task->AsyncExitSendSignal(*c->done);
			++gAfterExit;
		}(c));
		break;
	}
	}
	++gAfterExit;
	mc_fail("code after an exit of a coroutine is executed");
}
}
MC_SCENARIO(sched_coro_exit)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	TaskScheduler sched("m", 1 + mc_choose((int)mc_param("maxq", 2)));
	gSched = &sched;
	mc_serial_begin();
	sched.Start(workers);
	mc_settle();
	CoTask* c = new CoTask();
	mg::box::Signal* done = new mg::box::Signal();
	c->done = done;
	c->mode = mc_choose(5);
	int mode = c->mode;
	c->task = new Task();
	c->task->SetCallback(coBody(c));
	gTotal = 1;
	mc_serial_end();
	++gPosts[0];
	sched.Post(c->task);
	if (mode == 2 || mode == 4)
	{
		// Everything can be destroyed as soon as the signal is here.
		done->ReceiveBlocking();
		MC_CHECKF(gCoAlive == 0, "the coroutine is alive when the signal about its exit is sent");
		delete done;
		delete c->task;
	}
	else
	{
		mc_wait_until(allDone, nullptr);
	}
	mc_serial_begin();
	sched.Stop();
	MC_CHECKF(gCoAlive == 0, "%d coroutines are not destroyed", gCoAlive);
	MC_CHECK(gAfterExit == 0 && gRuns[0] == 5);
	if (mode != 2 && mode != 4)
		delete done;
	delete c;
	mc_outcome("w=%d mode=%d", workers, mode);
}

namespace {
// Waits for a signal with deadlines, tells timeouts from signals.
Coro coReceive(CoTask* c)
{
	Guard g;
	Task* t = c->task;
	bool ok = false;
	while (true)
	{
		uint64_t limit = c->mode == 0 ? 0 : 5;
		if (limit != 0)
		{
			t->SetDelay((uint32_t)limit);
			c->dl = nowMs() + limit;
		}
		else
			t->SetWait();
		ok = co_await t->AsyncReceiveSignal();
		++gExecs;
		if (ok)
			break;
		MC_CHECKF(limit == 0 || gWakeReq > 0 || nowMs() >= c->dl, "waiting for a signal has timed out too early");
		if (limit == 0)
			MC_CHECKF(gWakeReq > 0, "infinite waiting for a signal gave up");
		if (c->mode == 2)
		{
			// Cancel: wait for the signal anyway.
			c->mode = 0;
		}
	}
	MC_CHECKF(gSent > 0, "a signal is received before being sent");
	++gGot;
	for (int i = 0; i < 4; ++i)
		c->sum += c->data[i];
	MC_CHECKF(c->sum == 1, "the data of the signal is not visible");
	gFinal = 1;
	co_await t->AsyncExitDelete();
	++gAfterExit;
}
struct CoSend { CoTask* c; int delay; };
void coSignalThread(void* a)
{
	CoSend* s = (CoSend*)a;
	CoTask* c = s->c;
	Task* t = c->task;
	if (s->delay)
		mg::box::Sleep(s->delay);
	c->data[2] = 1;
	++gSent;
	t->PostSignal();
}
void coWakeThread(void* a)
{
	CoSend* s = (CoSend*)a;
	++gWakeReq;
	s->c->task->PostWakeup();
}
}
MC_SCENARIO(sched_coro_signal)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	TaskScheduler sched("m", 2);
	gSched = &sched;
	mc_serial_begin();
	sched.Start(workers);
	mc_settle();
	CoTask* c = new CoTask();
	c->mode = mc_choose(3);
	c->task = new Task();
	c->task->SetCallback(coReceive(c));
	static const int delays[] = {0, 4, 5, 6};
	CoSend s{c, delays[mc_choose(4)]};
	bool wake = mc_choose(2);
	mc_serial_end();
	int w = -1;
	sched.Post(c->task);
	if (wake)
	{
		w = mc_spawn(coWakeThread, &s, "waker");
		mc_join(w);
	}
	int th = mc_spawn(coSignalThread, &s, "signaler");
	mc_join(th);
	mc_wait_until(finalDone, nullptr);
	mc_serial_begin();
	sched.Stop();
	MC_CHECK(gCoAlive == 0 && gGot == 1 && gAfterExit == 0);
	mc_outcome("delay=%d execs=%d", s.delay, gExecs);
	delete c;
}

// A coroutine task moves between two schedulers by yields.
namespace {
Coro coTravel(CoTask* c)
{
	for (int i = 0; i < 4; ++i)
	{
		TaskScheduler* want = i % 2 == 0 ? gSched : gSched2;
		MC_CHECKF(&TaskScheduler::This() == want, "the coroutine is resumed in a wrong scheduler");
		MC_CHECK(c->data[0] == i);
		++c->data[0];
		if (i == 2 && c->mode)
			c->task->SetDelay(3);
		if (c->mode)
			co_await c->task->AsyncYield(i % 2 == 0 ? *gSched2 : *gSched);
		else
		{
			bool ok = co_await c->task->AsyncReceiveSignal(i % 2 == 0 ? *gSched2 : *gSched);
			MC_CHECK(!ok);
		}
	}
	++gDone;
	co_await c->task->AsyncExitDelete();
}
}
MC_SCENARIO(sched_coro_two)
{
	TaskScheduler s1("1", 2), s2("2", 2);
	gSched = &s1;
	gSched2 = &s2;
	mc_serial_begin();
	s1.Start(1 + mc_choose((int)mc_param("workers", 1)));
	s2.Start(1);
	mc_settle();
	CoTask* c = new CoTask();
	c->mode = mc_choose(2);
	c->task = new Task();
	c->task->SetCallback(coTravel(c));
	gTotal = 1;
	mc_serial_end();
	s1.Post(c->task);
	mc_wait_until(allDone, nullptr);
	mc_serial_begin();
	MC_CHECK(s1.WaitEmpty() && s2.WaitEmpty());
	s1.Stop();
	s2.Stop();
	MC_CHECK(c->data[0] == 4);
	delete c;
	mc_outcome("ok");
}

// A task destroyed before being posted, or when its coroutine is suspended for good, destroys the coroutine.
namespace {
Coro coAbandoned(CoTask* c)
{
	Guard g;
	Guard h;
	co_await mg::box::CoroCall([](CoTask* c) -> Coro {
		Guard i;
		c->data[0] = 1;
		gFinal = 1;
		co_await c->task->AsyncExitExec([c](Task*) { c->data[0] = 2; c->done->Send(); });
	}(c));
}
}
MC_SCENARIO(sched_coro_destroy)
{
	TaskScheduler sched("m", 2);
	gSched = &sched;
	mc_serial_begin();
	sched.Start(1 + mc_choose(2));
	mc_settle();
	mg::box::Signal done;
	CoTask* c = new CoTask();
	c->done = &done;
	{
		Task t(coAbandoned(c));
		c->task = &t;
	}
	MC_CHECKF(gCoAlive == 0 && c->data[0] == 0, "a coroutine is started without a post");
	c->task = new Task(coAbandoned(c));
	mc_serial_end();
	sched.Post(c->task);
	done.ReceiveBlocking();
	MC_CHECKF(gCoAlive == 0, "the coroutine is not destroyed at exit");
	MC_CHECK(c->data[0] == 2);
	mc_serial_begin();
	sched.Stop();
	delete c->task;
	delete c;
	mc_outcome("ok");
}
