// The parts working together, the way the examples and the documentation compose them.
#include "tcp_common.h"
#include "mg/aio/TCPServer.h"
#include "mg/box/MultiProducerQueueIntrusive.h"
#include "mg/box/ForwardList.h"
#include "mg/box/Signal.h"
#include "mg/net/DomainToIP.h"
#include "mg/net/Host.h"
#include "mg/net/SSLContext.h"
#include "mg/sch/TaskScheduler.h"
#include "mg/sio/TCPServer.h"
#include "mg/sio/TCPSocket.h"
#include <arpa/inet.h>
#include <functional>

using mg::box::Coro;
using mg::sch::Task;
using mg::sch::TaskScheduler;
using mg::net::Host;
using mg::net::BufferStream;

namespace {

ORACLE int gTotal;      // requests
ORACLE int gDone;       // finished requests
ORACLE int gAnswers;    // responses
ORACLE int gClientDown; // closures
ORACLE int gServerDown;
ORACLE int gPeers, gPeersDown;
bool allDone(void*) { return gDone == gTotal; }
bool allDown(void*) { return gClientDown == 1 && gServerDown == 1 && gPeersDown == gPeers; }

Host localHost()
{
	Host h;
	h.Set("127.0.0.1");
	return h;
}

// What the server calculates.
uint8_t answerOf(uint8_t a, uint8_t b) { return (uint8_t)(a * 3 + b); }

struct SubRequest
{
	uint8_t a, b;
	std::function<void(uint8_t)> onComplete;
	SubRequest* myNext;
};

// Takes requests of any threads and sends them over one connection.
class CalcClient final : private TCPSocketSubscription
{
public:
	CalcClient(IOCore& core, uint16_t port, bool asDomain)
		: sock(new TCPSocket(core))
	{
		sock->Open({});
		mg::aio::TCPSocketConnectParams p;
		Host h = mg::net::HostMakeLocalIPV4(port);
		p.myEndpoint = asDomain ? "calc.server:" + std::to_string(port) : h.ToString();
		sock->PostConnect(p, this);
	}
	void Delete() { sock->PostClose(); }
	void Submit(uint8_t a, uint8_t b, std::function<void(uint8_t)>&& f)
	{
		SubRequest* r = new SubRequest();
		r->a = a;
		r->b = b;
		r->onComplete = std::move(f);
		if (front.Push(r))
			sock->PostWakeup();
	}
private:
	~CalcClient()
	{
		SubRequest* r = front.PopAllFastReversed();
		MC_CHECKF(r == nullptr && queue.IsEmpty(), "requests are left");
	}
	void OnConnect() override { sock->Recv(128); }
	void OnEvent() override
	{
		SubRequest* tail;
		SubRequest* head = front.PopAll(tail);
		if (head == nullptr)
			return;
		queue.Append(head, tail);
		BufferStream data;
		for (; head != nullptr; head = head->myNext)
		{
			data.WriteCopy(&head->a, 1);
			data.WriteCopy(&head->b, 1);
		}
		sock->SendRef(data.PopData());
	}
	void OnRecv(BufferReadStream& st) override
	{
		while (st.GetReadSize() > 0)
		{
			uint8_t res;
			st.ReadData(&res, 1);
			SubRequest* r = queue.PopFirst();
			MC_CHECKF(r != nullptr, "a response without a request");
			MC_CHECKF(res == answerOf(r->a, r->b), "a response of another request");
			++gAnswers;
			r->onComplete(res);
			delete r;
		}
		sock->Recv(128);
	}
	void OnError(Error* e) override { MC_CHECKF(false, "an error of the client: %s", e->myMessage.c_str()); }
	void OnClose() override
	{
		sock->Delete();
		++gClientDown;
		delete this;
	}
	TCPSocket* sock;
	mg::box::ForwardList<SubRequest> queue;
	mg::box::MultiProducerQueueIntrusive<SubRequest> front;
};

class CalcPeer final : private TCPSocketSubscription
{
public:
	CalcPeer(IOCore& core, mg::net::Socket s)
		: sock(new TCPSocket(core))
	{
		++gPeers;
		sock->Open({});
		sock->PostWrap(s, this);
	}
private:
	void OnConnect() override { sock->Recv(3); }
	void OnRecv(BufferReadStream& st) override
	{
		BufferStream data;
		while (st.GetReadSize() >= 2)
		{
			uint8_t q[2];
			st.ReadData(q, 2);
			uint8_t r = answerOf(q[0], q[1]);
			data.WriteCopy(&r, 1);
		}
		if (data.GetReadSize() > 0)
			sock->SendRef(data.PopData());
		sock->Recv(3);
	}
	void OnClose() override
	{
		sock->Delete();
		++gPeersDown;
		delete this;
	}
	TCPSocket* sock;
};

class CalcServer final : private mg::aio::TCPServerSubscription
{
public:
	CalcServer(IOCore& core)
		: srv(mg::aio::TCPServer::NewShared(core))
	{
		Error::Ptr err;
		MC_CHECK(srv->Bind(localHost(), err));
	}
	void Start()
	{
		Error::Ptr err;
		MC_CHECK(srv->Listen(8, this, err));
	}
	void Delete() { srv->PostClose(); }
	mg::aio::TCPServer::Ptr srv;
private:
	~CalcServer() = default;
	void OnAccept(mg::net::Socket s, const Host&) override { new CalcPeer(srv->GetCore(), s); }
	void OnClose() override
	{
		++gServerDown;
		delete this;
	}
};

mg::box::AtomicU32* theLeft;
mg::box::Signal* theFinish;

// A request of the application: makes its sub-requests one by one or all at once, waits for their results.
class AppRequest
{
public:
	AppRequest(int anId, CalcClient* c, int aCount, bool aBulk, bool aTimer, CalcClient* toClose, TaskScheduler& sched)
		: id(anId), count(aCount), bulk(aBulk), timer(aTimer), client(c), closeIt(toClose), task(body(this))
	{
		sched.Post(&task);
	}
private:
	static Coro body(AppRequest* s)
	{
		uint8_t res[4] = {0, 0, 0, 0};
		mg::box::AtomicU32 left(s->count);
		for (int i = 0; i < s->count; ++i)
		{
			uint8_t* out = &res[i];
			s->client->Submit((uint8_t)(s->id + 1), (uint8_t)i, [s, out, &left](uint8_t v) {
				*out = v;
				if (left.DecrementFetchRelaxed() == 0 || !s->bulk)
					s->task.PostSignal();
			});
			if (s->bulk && i + 1 < s->count)
				continue;
			do
			{
				if (s->timer)
					s->task.SetDelay(1000);
				else
					s->task.SetWait();
			} while (!co_await s->task.AsyncReceiveSignal());
			MC_CHECKF(!s->task.IsExpired(), "a response takes too long");
			MC_CHECKF(*out == answerOf((uint8_t)(s->id + 1), (uint8_t)i), "a wrong response");
		}
		for (int i = 0; i < s->count; ++i)
			MC_CHECKF(res[i] == answerOf((uint8_t)(s->id + 1), (uint8_t)i), "a wrong response");
		co_await s->task.AsyncExitExec([s](Task*) {
			CalcClient* c = s->closeIt;
			delete s;
			++gDone;
			// The last one out.
			if (theLeft->DecrementFetchAcqRel() != 0)
				return;
			if (c != nullptr)
				c->Delete();
			theFinish->Send();
		});
	}
	int id, count;
	bool bulk, timer;
	CalcClient* client;
	CalcClient* closeIt;
	Task task;
};

}

// Tasks send requests through a shared client to a server, get the responses by signals.
MC_SCENARIO(app_pipeline)
{
	int io = (int)mc_param("io", 1);
	int workers = (int)mc_param("workers", 1);
	int n = 1 + mc_choose((int)mc_param("requests", 2));
	int count = 1 + mc_choose(2);
	bool bulk = count > 1 && mc_choose(2);
	bool lastCloses = mc_choose(2);
	bool timer = mc_choose(2);
	bool cold = mc_param("cold", 1) && mc_choose(2);
	mc_k_capacity(mc_param("cap", 3));
	gTotal = n;
	mg::box::AtomicU32 left(n);
	mg::box::Signal finish;
	theLeft = &left;
	theFinish = &finish;
	mc_serial_begin();
	{
		IOCore core;
		TaskScheduler sched("app", 2);
		core.Start(io);
		sched.Start(workers);
		CalcServer* server = new CalcServer(core);
		uint16_t port = server->srv->GetPort();
		server->Start();
		mc_settle();
		if (mc_param("pump", 0))
		{
			mc_k_pump_on();
			mc_spawn(pumpThread, nullptr, "network");
		}
		mc_k_faults((int)mc_param("faults", 0));
		if (cold)
			mc_serial_end();
		CalcClient* client = new CalcClient(core, port, false);
		if (!cold)
		{
			mc_settle();
			mc_serial_end();
		}
		for (int i = 0; i < n; ++i)
			new AppRequest(i, client, count, bulk, timer, lastCloses ? client : nullptr, sched);
		if (!lastCloses)
		{
			// Tasks waiting without a deadline are not counted by the scheduler.
			if (timer)
				MC_CHECK(sched.WaitEmpty());
			else
				finish.ReceiveBlocking();
			MC_CHECKF(gDone == n, "the scheduler is empty with %d of %d requests done", gDone, n);
			client->Delete();
		}
		else
			finish.ReceiveBlocking();
		mc_serial_begin();
		server->Delete();
		mc_wait_until(allDown, nullptr);
		MC_CHECKF(gAnswers == n * count && gPeers == 1, "%d answers, %d connections", gAnswers, gPeers);
		MC_CHECK(core.WaitEmpty() == 0);
		MC_CHECK(sched.WaitEmpty());
		sched.Stop();
		core.Stop();
		mc_outcome("n=%d c=%d", n, count);
	}
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}

namespace {

ORACLE int gPolledDown;
bool polledDown(void*) { return gPeersDown == gPeers && gPeers == 1 && gServerDown == 1; }
bool clientDown(void*) { return gClientDown == 1; }

// Until the condition or an error.
template<typename F>
void poll(F f)
{
	while (!f())
		mg::box::Sleep(1);
}

}

// A polled client with an event-driven server, and an event-driven client with a polled server.
MC_SCENARIO(app_polled)
{
	int io = (int)mc_param("io", 1);
	int role = mc_choose(2);
	int n = 1 + mc_choose(3);
	mc_k_capacity(mc_param("cap", 3));
	mc_serial_begin();
	{
		IOCore core;
		core.Start(io);
		mc_settle();
		Error::Ptr err;
		if (role == 0)
		{
			CalcServer* server = new CalcServer(core);
			uint16_t port = server->srv->GetPort();
			server->Start();
			mc_settle();
			mc_serial_end();
			mg::sio::TCPSocket s;
			MC_CHECK(s.Connect(mg::net::HostMakeLocalIPV4(port), err));
			poll([&]() {
				MC_CHECKF(s.Update(err), "could not connect");
				return s.IsConnected();
			});
			int got = 0;
			for (int i = 0; i < n; ++i)
			{
				uint8_t q[2] = {(uint8_t)(10 + i), (uint8_t)i};
				s.SendCopy(q, 1);
				MC_CHECK(s.Update(err));
				s.SendCopy(q + 1, 1);
			}
			poll([&]() {
				MC_CHECK(s.Update(err));
				uint8_t b[2];
				int64_t rc = s.Recv(b, 2, err);
				MC_CHECKF(rc != 0 && !err.IsSet(), "the connection is lost");
				for (int64_t i = 0; i < rc; ++i, ++got)
					MC_CHECKF(got < n && b[i] == answerOf((uint8_t)(10 + got), (uint8_t)got), "a wrong response");
				return got == n;
			});
			s.Close();
			mc_serial_begin();
			server->Delete();
			mc_wait_until(polledDown, nullptr);
		}
		else
		{
			mg::sio::TCPServer srv;
			MC_CHECK(srv.Bind(localHost(), err));
			MC_CHECK(srv.Listen(8, err));
			mc_serial_end();
			CalcClient* client = new CalcClient(core, srv.GetPort(), false);
			int left = n;
			ORACLE static int done;
			done = 0;
			for (int i = 0; i < n; ++i)
				client->Submit((uint8_t)(10 + i), (uint8_t)i, [](uint8_t) { ++done; });
			(void)left;
			mg::net::Socket fd = mg::net::theInvalidSocket;
			Host peer;
			poll([&]() {
				fd = srv.Accept(peer, err);
				MC_CHECK(!err.IsSet());
				return fd != mg::net::theInvalidSocket;
			});
			mg::sio::TCPSocket s;
			s.Wrap(fd);
			uint8_t q[2];
			int have = 0;
			poll([&]() {
				MC_CHECK(s.Update(err));
				int64_t rc = s.Recv(q + have, 2 - have, err);
				MC_CHECKF(rc != 0 && !err.IsSet(), "the connection is lost");
				if (rc > 0)
					have += (int)rc;
				if (have == 2)
				{
					uint8_t r = answerOf(q[0], q[1]);
					s.SendCopy(&r, 1);
					have = 0;
				}
				return done == n;
			});
			client->Delete();
			poll([&]() {
				uint8_t b;
				int64_t rc = s.Recv(&b, 1, err);
				MC_CHECKF(rc <= 0, "excess data");
				return rc == 0 || err.IsSet();
			});
			MC_CHECKF(!err.IsSet(), "an error of a normal closure");
			mc_serial_begin();
			mc_wait_until(clientDown, nullptr);
		}
		MC_CHECK(core.WaitEmpty() == 0);
		core.Stop();
		mc_outcome("r=%d n=%d", role, n);
	}
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}

namespace {

ORACLE int gResolved[4];
// Waits for an address for a limited time.
struct Resolver
{
	static Coro body(Resolver* s)
	{
		mg::net::DomainToIPRequest req;
		uint64_t start = mc_now_ns() / 1000000;
		mg::net::DomainToIPAsync(req, s->slow ? "slow.server" : "calc.server", mg::box::theTimePointInf, [s](
			const char*, const std::vector<mg::net::DomainEndpoint>& eps, Error* err) {
			s->ok = err == nullptr && eps.size() == 1 && eps[0].myHost.myAddr.sa_family == AF_INET;
			s->isCanceled = err != nullptr && err->myCode == mg::box::ERR_BOX_CANCEL;
			s->task.PostSignal();
		});
		s->task.SetDelay(s->limit);
		bool expired = false;
		while (!co_await s->task.AsyncReceiveSignal())
		{
			if (!expired && s->task.IsExpired())
			{
				expired = true;
				MC_CHECKF(mc_now_ns() / 1000000 >= start + s->limit, "is expired too early");
				mg::net::DomainToIPCancel(req);
				s->task.SetWait();
			}
			else if (!expired)
				s->task.SetDeadline(start + s->limit);
			else
				s->task.SetWait();
		}
		MC_CHECKF(s->ok || s->isCanceled, "neither an address nor a cancellation");
		MC_CHECKF(s->ok || expired, "a cancellation by nobody");
		gResolved[s->id] = 1 + s->ok;
		co_await s->task.AsyncExitExec([s](Task*) {
			++gDone;
			mg::box::Signal* f = theFinish;
			if (theLeft->DecrementFetchAcqRel() == 0)
				f->Send();
		});
	}
	int id;
	bool slow;
	uint64_t limit;
	bool ok = false, isCanceled = false;
	Task task;
};

}

// Tasks wait for name resolutions with their own deadlines and cancel them.
MC_SCENARIO(app_resolve)
{
	int n = (int)mc_param("requests", 2);
	int workers = (int)mc_param("workers", 1);
	mc_serial_begin();
	sockaddr_in a;
	memset(&a, 0, sizeof(a));
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	const sockaddr* addrs[] = {(sockaddr*)&a};
	mc_k_dns("calc.server", 0, 0, 0, 1, addrs);
	mc_k_dns("slow.server", 0, 0, 10000000, 1, addrs);
	{
		std::vector<mg::net::DomainEndpoint> eps;
		Error::Ptr err;
		MC_CHECK(mg::net::DomainToIPBlocking("calc.server", mg::box::theTimePointInf, eps, err));
	}
	mg::box::AtomicU32 left(n);
	mg::box::Signal finish;
	theLeft = &left;
	theFinish = &finish;
	gTotal = n;
	Resolver* r[4];
	{
		TaskScheduler sched("app", 2);
		sched.Start(workers);
		mc_settle();
		for (int i = 0; i < n; ++i)
		{
			r[i] = new Resolver();
			r[i]->id = i;
			r[i]->slow = mc_choose(2);
			static const uint64_t LIMITS[] = {0, 5, 100};
			r[i]->limit = LIMITS[mc_choose(3)];
			r[i]->task.SetCallback(Resolver::body(r[i]));
		}
		mc_serial_end();
		for (int i = 0; i < n; ++i)
			sched.Post(&r[i]->task);
		finish.ReceiveBlocking();
		mc_serial_begin();
		MC_CHECK(sched.WaitEmpty());
		sched.Stop();
	}
	for (int i = 0; i < n; ++i)
	{
		MC_CHECKF(r[i]->limit != 100 || gResolved[i] == 2, "a resolution is canceled in time");
		MC_CHECKF(r[i]->slow == 0 || r[i]->limit != 5 || gResolved[i] != 0, "not resolved");
		delete r[i];
	}
	mc_outcome("%d %d", gResolved[0], gResolved[1]);
}
