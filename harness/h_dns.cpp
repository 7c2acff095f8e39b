// Domain name resolution: requests, limits, cancellations, errors.
#include "mc.h"
#include "kern.h"
#include "mg/box/Error.h"
#include "mg/box/Time.h"
#include "mg/box/Thread.h"
#include "mg/net/DomainToIP.h"
#include "mg/net/Host.h"
#include <arpa/inet.h>
#include <netdb.h>
#include <string.h>

using namespace mg::net;
using mg::box::TimeLimit;

#define ORACLE __attribute__((section("mcoracle")))

namespace {

enum { NAME_OK, NAME_SLOW, NAME_UNKNOWN, NAME_SYSERR, NAME_NOIP, NAME_COUNT };
const char* const NAMES[NAME_COUNT] = {"two.ip", "slow.ip", "no.such", "sys.err", "odd.family"};

ORACLE int gCalls[8];
ORACLE int gCode[8];
ORACLE int gCancelled[8];
ORACLE uint64_t gPostNs[8];
ORACLE int gFinished;
ORACLE int gTotal;
bool allCalled(void*) { return gFinished >= gTotal; }

sockaddr_in gA, gB;
sockaddr_in6 gC;
sockaddr gOdd;

void setupDns()
{
	memset(&gA, 0, sizeof(gA));
	gA.sin_family = AF_INET;
	gA.sin_addr.s_addr = htonl(0x01020304);
	gB = gA;
	gB.sin_addr.s_addr = htonl(0x05060708);
	memset(&gC, 0, sizeof(gC));
	gC.sin6_family = AF_INET6;
	gC.sin6_addr = in6addr_loopback;
	memset(&gOdd, 0, sizeof(gOdd));
	gOdd.sa_family = AF_UNIX;
	// Duplicates are to be removed, foreign families are skipped.
	const sockaddr* two[] = {(sockaddr*)&gA, (sockaddr*)&gC, (sockaddr*)&gA, &gOdd};
	const sockaddr* slow[] = {(sockaddr*)&gB};
	const sockaddr* odd[] = {&gOdd};
	mc_k_dns(NAMES[NAME_OK], 0, 0, 0, 4, two);
	mc_k_dns(NAMES[NAME_SLOW], 0, 0, 10000000, 1, slow);
	mc_k_dns(NAMES[NAME_UNKNOWN], EAI_NONAME, 0, 0, 0, nullptr);
	mc_k_dns(NAMES[NAME_SYSERR], EAI_SYSTEM, ECONNREFUSED, 0, 0, nullptr);
	mc_k_dns(NAMES[NAME_NOIP], 0, 0, 0, 1, odd);
}

struct Req
{
	int id;
	int name;
	int limit;
	int payload;
	DomainToIPRequest req;
};

TimeLimit limitOf(int l)
{
	switch (l)
	{
	case 0: return mg::box::theTimePointInf;
	case 1: return mg::box::TimeDuration(0);
	case 2: return mg::box::TimeDuration(5);
	case 3: return mg::box::TimeDuration(100);
	default: return mg::box::TimePoint(0);
	}
}
uint64_t limitNs(int l, uint64_t start)
{
	// The limit is in milliseconds of the clock.
	uint64_t ms = start / 1000000;
	switch (l)
	{
	case 0: return UINT64_MAX;
	case 1: return ms * 1000000;
	case 2: return (ms + 5) * 1000000;
	case 3: return (ms + 100) * 1000000;
	default: return 0;
	}
}

void onResult(Req* r, int id, int name, int limit, const char* domain, const std::vector<DomainEndpoint>& eps, mg::box::Error* err)
{
	MC_CHECKF(strcmp(domain, NAMES[name]) == 0, "a wrong domain name");
	MC_CHECKF(++gCalls[id] == 1, "the callback of request %d is called twice", id);
	(void)r;
	if (err != nullptr)
	{
		MC_CHECKF(eps.empty(), "both addresses and an error");
		switch (err->myCode)
		{
		case mg::box::ERR_BOX_CANCEL:
			MC_CHECKF(gCancelled[id], "request %d is canceled by nobody", id);
			break;
		case mg::box::ERR_BOX_TIMEOUT:
			MC_CHECKF(mc_now_ns() >= limitNs(limit, gPostNs[id]), "request %d is timed out too early", id);
			break;
		case mg::box::ERR_NET_ADDR_NOT_AVAIL:
			MC_CHECKF(name == NAME_UNKNOWN || name == NAME_NOIP, "request %d is not resolved", id);
			break;
		default:
			MC_CHECKF(name == NAME_SYSERR, "request %d: unexpected error %d", id, (int)err->myCode);
			break;
		}
		gCode[id] = err->myCode;
	}
	else
	{
		gCode[id] = 0;
		MC_CHECKF(name == NAME_OK || name == NAME_SLOW, "request %d is resolved", id);
		if (name == NAME_OK)
		{
			MC_CHECKF(eps.size() == 2, "%d addresses", (int)eps.size());
			MC_CHECK(eps[0].myHost.myAddr.sa_family == AF_INET);
			MC_CHECK(((const sockaddr_in&)eps[0].myHost.myAddr).sin_addr.s_addr == gA.sin_addr.s_addr);
			MC_CHECK(eps[1].myHost.myAddr.sa_family == AF_INET6);
		}
		else
		{
			MC_CHECKF(eps.size() == 1, "%d addresses", (int)eps.size());
			MC_CHECK(((const sockaddr_in&)eps[0].myHost.myAddr).sin_addr.s_addr == gB.sin_addr.s_addr);
		}
		MC_CHECKF(limit != 1 && limit != 4, "a request with an expired limit is executed");
	}
	++gFinished;
}

void post(Req* r)
{
	gPostNs[r->id] = mc_now_ns();
	int id = r->id, name = r->name, limit = r->limit;
	r->payload = id + 1;
	DomainToIPAsync(r->req, NAMES[name], limitOf(limit), [r, id, name, limit](
		const char* d, const std::vector<DomainEndpoint>& e, mg::box::Error* err) {
		onResult(r, id, name, limit, d, e, err);
	});
}
void cancel(Req* r)
{
	gCancelled[r->id] = 1;
	DomainToIPCancel(r->req);
}

void warmUp()
{
	mc_serial_begin();
	setupDns();
	Req* w = new Req();
	w->id = 7;
	w->name = NAME_UNKNOWN;
	w->limit = 0;
	gTotal = 1;
	post(w);
	mc_wait_until(allCalled, nullptr);
	mc_settle();
	delete w;
	gFinished = 0;
	mc_serial_end();
}

void finish(int n)
{
	mc_wait_until(allCalled, nullptr);
	mc_serial_begin();
	mc_settle();
	for (int i = 0; i < n; ++i)
		MC_CHECKF(gCalls[i] == 1, "the callback of request %d is called %d times", i, gCalls[i]);
}

struct Canceler { Req** r; int mask; };
void cancelThread(void* a)
{
	Canceler* c = (Canceler*)a;
	for (int i = 0; i < 4; ++i)
		if (c->mask & (1 << i))
			cancel(c->r[i]);
}
void postThread(void* a) { post((Req*)a); }

}

// All combinations of names, limits and fates of several requests.
MC_SCENARIO(dns_inputs)
{
	int n = (int)mc_param("requests", 2);
	warmUp();
	uint64_t live = mc_live_blocks();
	gTotal = n;
	{
		Req* rs = new Req[n];
		Req* ptr[4];
		int fate[4];
		for (int i = 0; i < n; ++i)
		{
			ptr[i] = &rs[i];
			rs[i].id = i;
			rs[i].name = mc_choose(NAME_COUNT);
			rs[i].limit = mc_choose(5);
			fate[i] = mc_choose(4);
			post(&rs[i]);
			if (fate[i] == 1)
				cancel(&rs[i]);
			if (fate[i] == 3)
				rs[i].req = DomainToIPRequest();
		}
		for (int i = 0; i < n; ++i)
			if (fate[i] == 2)
				cancel(ptr[i]);
		finish(n);
		delete[] rs;
	}
	MC_CHECKF(mc_live_blocks() == live, "%lld blocks are leaked", (long long)(mc_live_blocks() - live));
	mc_outcome("%d %d", gCode[0], gCode[1]);
}

// Posts and cancels from several threads.
MC_SCENARIO(dns_cancel)
{
	warmUp();
	uint64_t live = mc_live_blocks();
	gTotal = 2;
	Req* rs = new Req[2];
	Req* ptr[4] = {&rs[0], &rs[1], nullptr, nullptr};
	int kind = mc_choose(4);
	rs[0].id = 0;
	rs[0].name = mc_choose(2);
	rs[0].limit = kind == 3 ? 2 : 0;
	rs[1].id = 1;
	rs[1].name = kind == 2 ? NAME_UNKNOWN : NAME_OK;
	rs[1].limit = kind == 1 ? 1 : 0;
	int pt = mc_spawn(postThread, &rs[1], "poster");
	post(&rs[0]);
	Canceler c{ptr, 1};
	int ct = mc_spawn(cancelThread, &c, "canceler");
	mc_join(pt);
	if (mc_choose(2))
		cancel(&rs[1]);
	mc_join(ct);
	finish(2);
	MC_CHECK(rs[0].payload == 1 && rs[1].payload == 2);
	delete[] rs;
	MC_CHECKF(mc_live_blocks() == live, "%lld blocks are leaked", (long long)(mc_live_blocks() - live));
	mc_outcome("%d %d", gCode[0], gCode[1]);
}

// The very first requests are made by two threads at once, the request is deleted by its callback.
MC_SCENARIO(dns_first)
{
	setupDns();
	gTotal = 2;
	struct R { DomainToIPRequest req; };
	R* r = new R();
	Req* other = new Req();
	other->id = 1;
	other->name = NAME_OK;
	other->limit = 0;
	int pt = mc_spawn(postThread, other, "poster");
	DomainToIPAsync(r->req, NAMES[NAME_SLOW], mg::box::theTimePointInf, [r](
		const char*, const std::vector<DomainEndpoint>& e, mg::box::Error* err) {
		MC_CHECKF(++gCalls[0] == 1, "the callback is called twice");
		MC_CHECK(err == nullptr && e.size() == 1);
		delete r;
		++gFinished;
	});
	mc_join(pt);
	finish(2);
	delete other;
}

struct Blk { int name; int limit; };
static void blockingThread(void* a)
{
	Blk* b = (Blk*)a;
	std::vector<DomainEndpoint> eps;
	mg::box::Error::Ptr err;
	bool ok = DomainToIPBlocking(NAMES[b->name], limitOf(b->limit), eps, err);
	MC_CHECK(ok == !err.IsSet());
	if (ok)
		MC_CHECK(b->name == NAME_OK && eps.size() == 2 && b->limit != 1);
	else
	{
		MC_CHECK(eps.empty());
		if (b->limit == 1)
			MC_CHECKF(err->myCode == mg::box::ERR_BOX_TIMEOUT, "error %d instead of a timeout", (int)err->myCode);
		else
			MC_CHECKF(err->myCode == mg::box::ERR_NET_ADDR_NOT_AVAIL, "error %d", (int)err->myCode);
	}
	mc_outcome("%d %d %d", b->name, b->limit, ok);
}
// The blocking variant uses its stack from the callback.
MC_SCENARIO(dns_blocking)
{
	setupDns();
	Blk a{mc_choose(2) ? NAME_OK : NAME_UNKNOWN, mc_choose(2)};
	Blk b{NAME_OK, 0};
	int t = mc_spawn(blockingThread, &a, "resolver");
	blockingThread(&b);
	mc_join(t);
}

// More requests than one batch of the worker, canceled at some moment of their processing.
MC_SCENARIO(dns_many)
{
	int n = (int)mc_param("requests", 11);
	warmUp();
	gTotal = n;
	ORACLE static int calls;
	calls = 0;
	int at = mc_choose(3);
	DomainToIPRequest* r = new DomainToIPRequest[n];
	for (int i = 0; i < n; ++i)
	{
		int k = mc_choose((int)mc_param("kinds", 3));
		int name = k == 1 ? NAME_SLOW : NAME_OK;
		uint64_t start = mc_now_ns();
		bool victim = i == n - 1;
		DomainToIPAsync(r[i], NAMES[name], k == 2 ? TimeLimit(mg::box::TimeDuration(15)) : TimeLimit(mg::box::theTimePointInf), [=](
			const char*, const std::vector<DomainEndpoint>& e, mg::box::Error* err) {
			++calls;
			++gFinished;
			if (err == nullptr)
			{
				MC_CHECK(e.size() == (name == NAME_SLOW ? 1 : 2));
				return;
			}
			if (err->myCode == mg::box::ERR_BOX_TIMEOUT)
				MC_CHECKF(k == 2 && mc_now_ns() - start >= 15000000, "a wrong timeout");
			else
				MC_CHECKF(victim && at > 0 && err->myCode == mg::box::ERR_BOX_CANCEL, "error %d", (int)err->myCode);
		});
	}
	if (at == 2)
		mg::box::Sleep(25);
	if (at > 0)
		DomainToIPCancel(r[n - 1]);
	mc_wait_until(allCalled, nullptr);
	mc_serial_begin();
	mc_settle();
	MC_CHECKF(calls == n, "%d callbacks of %d", calls, n);
	delete[] r;
	mc_outcome("%d", at);
}

// Requests posted and canceled while the worker resolves another one: the canceled ones do not run, the others do.
MC_SCENARIO(dns_queued)
{
	int n = (int)mc_param("requests", 3);
	warmUp();
	uint64_t live = mc_live_blocks();
	gTotal = n + 1;
	Req* slow = new Req();
	slow->id = 6;
	slow->name = NAME_SLOW;
	slow->limit = 0;
	Req* rs = new Req[n];
	post(slow);
	mg::box::Sleep(3);
	for (int i = 0; i < n; ++i)
	{
		rs[i].id = i;
		rs[i].name = NAME_OK;
		static const int LIMITS[] = {0, 2, 3};
		rs[i].limit = LIMITS[mc_choose(3)];
		post(&rs[i]);
	}
	int mask = mc_choose(1 << n);
	int down = mc_choose(2);
	for (int k = 0; k < n; ++k)
	{
		int i = down ? n - 1 - k : k;
		if (mask & (1 << i))
			cancel(&rs[i]);
	}
	finish(0);
	for (int i = 0; i < n; ++i)
	{
		MC_CHECKF(gCalls[i] == 1, "the callback of request %d is called %d times", i, gCalls[i]);
		int expected = mask & (1 << i) ? (int)mg::box::ERR_BOX_CANCEL : rs[i].limit == 2 ? (int)mg::box::ERR_BOX_TIMEOUT : 0;
		MC_CHECKF(gCode[i] == expected, "the result of queued request %d is %d instead of %d", i, gCode[i], expected);
	}
	delete[] rs;
	delete slow;
	MC_CHECKF(mc_live_blocks() == live, "%lld blocks are leaked", (long long)(mc_live_blocks() - live));
	mc_outcome("%d", mask);
}
