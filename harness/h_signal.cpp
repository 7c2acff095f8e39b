// Signal: delivery of a flag between threads.
#include "mc.h"
#include "mg/box/Signal.h"
#include "mg/box/Thread.h"
#include "mg/box/Time.h"

namespace {

struct Ctx
{
	mg::box::Signal* sig;
	int data[4];       // plain data published before Send
	int consumed;      // number of successful receipts (harness bookkeeping)
	int sends;
	int stampN;
	uint64_t stamps[8];
};

__attribute__((section("mcoracle"))) int gRecv;
__attribute__((section("mcoracle"))) int gSent;

void sender(void* a)
{
	Ctx* c = (Ctx*)a;
	int i;
	{
		McIgnore ig;
		i = c->sends++;
	}
	c->data[i] = 100 + i;
	c->sig->Send();
	++gSent;
}

}

// One signal, one sender, one blocking receiver which deletes the signal right after the receipt.
MC_SCENARIO(delete_after_receive)
{
	Ctx c = {};
	c.sig = new mg::box::Signal();
	int t = mc_spawn(sender, &c, "sender");
	int mode = mc_choose(3);
	bool ok = false;
	if (mode == 0)
	{
		c.sig->ReceiveBlocking();
		ok = true;
	}
	else if (mode == 1)
	{
		// Non-blocking poll, then blocking.
		ok = c.sig->Receive();
		mc_outcome("poll=%d", ok);
		if (!ok)
		{
			c.sig->ReceiveBlocking();
			ok = true;
		}
	}
	else
	{
		ok = c.sig->ReceiveTimed(mg::box::TimeDuration(10));
		mc_outcome("timed=%d", ok);
		if (!ok)
			c.sig->ReceiveBlocking();
	}
	MC_CHECKF(c.data[0] == 100, "receipt does not see the data of the sender");
	MC_CHECKF(!c.sig->Receive(), "one send was received twice");
	delete c.sig;
	mc_join(t);
	mc_outcome("mode %d done", mode);
}

// A timed receipt is not later than the send whatever its limit is.
MC_SCENARIO(timed_prompt)
{
	Ctx c = {};
	c.sig = new mg::box::Signal();
	int mode = mc_choose(3);
	int n = 1 + mc_choose(2);
	uint64_t t0 = mc_now_ns();
	int t[2];
	for (int i = 0; i < n; ++i)
		t[i] = mc_spawn(sender, &c, "sender");
	bool ok;
	if (mode == 0)
		ok = c.sig->ReceiveTimed(mg::box::TimeDuration(10));
	else if (mode == 1)
		ok = c.sig->ReceiveTimed(mg::box::TimePoint(t0 / 1000000 + 1000));
	else
		ok = c.sig->ReceiveTimed(mg::box::theTimeDurationInf);
	MC_CHECKF(mc_now_ns() == t0, "a timed receipt of a sent signal takes %llu ms", (unsigned long long)(mc_now_ns() - t0) / 1000000);
	MC_CHECKF(ok, "a timed receipt has given up before its limit");
	if (n == 1)
		MC_CHECKF(c.data[0] == 100, "receipt does not see the data of the sender");
	for (int i = 0; i < n; ++i)
		mc_join(t[i]);
	bool more = c.sig->Receive();
	MC_CHECKF(n == 2 || !more, "one send was received twice");
	mc_outcome("mode=%d n=%d more=%d", mode, n, more);
	delete c.sig;
}

// Work counter protected by nothing but the signal protocol: the senders make the work visible and
// send, the receiver sleeps until a signal and then drains all the work. A lost signal would leave
// the receiver sleeping forever with work available.
namespace {
struct Work
{
	mg::box::Signal sig;
	mg::box::AtomicU32 avail{0};
	int polls = 0;
	uint32_t got = 0;
};
void workSender(void* a)
{
	Work* w = (Work*)a;
	w->avail.IncrementRelaxed();
	w->sig.Send();
	++gSent;
}
void workSender2(void* a)
{
	workSender(a);
	workSender(a);
}
}

MC_SCENARIO(drain_two_senders)
{
	Work* w = new Work();
	gRecv = gSent = 0;
	int mode = mc_choose(2);
	int t1 = mc_spawn(workSender, w, "sender1");
	int t2 = mc_spawn(workSender, w, "sender2");
	while (w->got < 2)
	{
		if (mode == 0)
			w->sig.ReceiveBlocking();
		else if (!w->sig.ReceiveTimed(mg::box::TimeDuration(10)))
			continue;
		++gRecv;
		w->got += w->avail.ExchangeRelaxed(0);
	}
	mc_join(t1);
	mc_join(t2);
	bool more = w->sig.Receive();
	if (more) ++gRecv;
	MC_CHECKF(gRecv <= 2, "more receipts than sends");
	MC_CHECKF(!w->sig.Receive(), "one send was received twice");
	mc_outcome("mode=%d recv=%d more=%d", mode, gRecv, more);
	delete w;
}

MC_SCENARIO(drain_resend)
{
	Work* w = new Work();
	int t1 = mc_spawn(workSender2, w, "sender");
	while (w->got < 2)
	{
		w->sig.ReceiveBlocking();
		w->got += w->avail.ExchangeRelaxed(0);
	}
	mc_join(t1);
	delete w;
}

// Only one receiver is woken up by one send; the woken one re-sends to simulate a broadcast.
namespace {
struct Bcast
{
	mg::box::Signal sig;
	mg::box::AtomicBool stop{false};
};
__attribute__((section("mcoracle"))) int gWoken;
void bcastRecv(void* a)
{
	Bcast* b = (Bcast*)a;
	b->sig.ReceiveBlocking();
	++gWoken;
	MC_CHECKF(b->stop.LoadRelaxed(), "woken up without the flag being visible");
	b->sig.Send();
}
}
MC_SCENARIO(broadcast_by_resend)
{
	Bcast* b = new Bcast();
	gWoken = 0;
	int t1 = mc_spawn(bcastRecv, b, "recv1");
	int t2 = mc_spawn(bcastRecv, b, "recv2");
	b->stop.StoreRelaxed(true);
	b->sig.Send();
	mc_join(t1);
	mc_join(t2);
	MC_CHECK(gWoken == 2);
	MC_CHECKF(b->sig.Receive(), "the last re-send is lost");
	MC_CHECKF(!b->sig.Receive(), "signal is received twice");
	delete b;
}

// Two competing receivers and one send: exactly one of them gets it.
namespace {
__attribute__((section("mcoracle"))) int gGot[3];
struct Comp { mg::box::Signal sig; int mode; };
void compRecv(void* a)
{
	Comp* c = (Comp*)a;
	bool ok = c->mode == 0 ? c->sig.Receive() : c->sig.ReceiveTimed(mg::box::TimeDuration(10));
	if (ok)
		++gGot[0];
}
void compSend(void* a) { ((Comp*)a)->sig.Send(); }
}
MC_SCENARIO(one_send_two_receivers)
{
	Comp* c = new Comp();
	gGot[0] = 0;
	c->mode = mc_choose(2);
	int t1 = mc_spawn(compRecv, c, "recv1");
	int t2 = mc_spawn(compRecv, c, "recv2");
	int t3 = mc_spawn(compSend, c, "send");
	mc_join(t1);
	mc_join(t2);
	mc_join(t3);
	int got = gGot[0];
	if (c->sig.Receive())
		++got;
	MC_CHECKF(got == 1, "one send was received %d times", got);
	MC_CHECK(!c->sig.Receive());
	mc_outcome("mode=%d inflight=%d", c->mode, gGot[0]);
	delete c;
}

// A timed receipt neither gives up early (absent spurious wakeups) nor oversleeps, for any limit.
MC_SCENARIO(timed_limits)
{
	Comp* c = new Comp();
	static const uint64_t lims[] = {0, 1, 10, 1000, UINT32_MAX, (uint64_t)INT64_MAX / 1000000,
		(uint64_t)INT64_MAX / 1000000 + 1, (uint64_t)INT64_MAX, (uint64_t)INT64_MAX + 1,
		UINT64_MAX / 1000, UINT64_MAX - 1, UINT64_MAX};
	int k = mc_choose(12);
	bool byPoint = mc_choose(2) == 1;
	bool send = mc_choose(2) == 1;
	uint64_t lim = lims[k];
	if (!send && lim > 100000000)
		mc_discard();
	mg::box::TimeLimit tl;
	uint64_t start = mg::box::GetMilliseconds();
	uint64_t end = UINT64_MAX - lim < start ? UINT64_MAX : start + lim;
	if (byPoint)
		tl = mg::box::TimePoint(end);
	else
		tl = mg::box::TimeDuration(lim);
	int t = -1;
	struct S { static void fn(void* a) { mg::box::Sleep(5); ((Comp*)a)->sig.Send(); } };
	if (send)
		t = mc_spawn(S::fn, c, "sender");
	bool ok = c->sig.ReceiveTimed(tl);
	uint64_t now = mg::box::GetMilliseconds();
	if (!ok)
		MC_CHECKF(now >= end, "timed receipt gave up %llu ms before its limit (limit %llu)",
			(unsigned long long)(end - now), (unsigned long long)lim);
	else
		MC_CHECKF(send, "received a signal nobody sent");
	if (ok)
		MC_CHECKF(now == start + 5, "signal receipt is delayed");
	else if (!send)
		MC_CHECKF(now <= end + 1, "overslept");
	if (t >= 0)
		mc_join(t);
	mc_outcome("lim=%d point=%d send=%d ok=%d", k, byPoint, send, ok);
	delete c;
}
