// TCPServer: accepting and closing.
#include "tcp_common.h"
#include "mg/aio/TCPServer.h"
#include "mg/net/Host.h"

using mg::aio::TCPServer;
using mg::aio::TCPServerSubscription;
using mg::net::Host;

namespace {

const int MAXC = 4;
ORACLE int gAccepted;
ORACLE int gAcceptedPort[MAXC];
ORACLE int gClientPort[MAXC];
ORACLE int gClientDone;
ORACLE int gClientReset;
ORACLE int gSrvIn;
ORACLE int gSrvClosed;
ORACLE int gSrvCloseReq;
ORACLE int gWantAccepts;
ORACLE int gListening;
ORACLE int gAct; // 0 - nothing, 1 - close in the first accept
bool srvClosed(void*) { return gSrvClosed > 0; }
bool srvAccepted(void*) { return gAccepted + gClientReset >= gWantAccepts; }

struct SrvSub : public TCPServerSubscription
{
	void OnAccept(mg::net::Socket sock, const Host& host) override
	{
		MC_CHECKF(gSrvIn == 0, "two server callbacks at once");
		gSrvIn = 1;
		MC_CHECKF(gSrvClosed == 0, "an accept after the closing");
		int d = data;
		mc_point();
		data = d + 1;
		MC_CHECK(sock >= 0 && fcntl(sock, F_GETFL) != -1);
		MC_CHECKF((fcntl(sock, F_GETFL) & O_NONBLOCK) != 0, "an accepted socket is blocking");
		int port = host.GetPort();
		for (int i = 0; i < gAccepted; ++i)
			MC_CHECKF(gAcceptedPort[i] != port, "a connection is accepted twice");
		MC_CHECK(gAccepted < MAXC);
		gAcceptedPort[gAccepted] = port;
		// Served right here.
		uint8_t b = (uint8_t)port;
		MC_CHECK(::send(sock, &b, 1, MSG_NOSIGNAL) == 1);
		close(sock);
		++gAccepted;
		if (gAct == 1)
		{
			gSrvCloseReq = 1;
			srv->PostClose();
		}
		gSrvIn = 0;
	}
	void OnClose() override
	{
		MC_CHECKF(gSrvIn == 0, "two server callbacks at once");
		MC_CHECKF(gSrvCloseReq > 0, "is closed by nobody");
		MC_CHECKF(++gSrvClosed == 1, "is closed twice");
		MC_CHECKF(srv->IsClosed(), "is not closed in the closing callback");
		data += 1;
	}
	TCPServer* srv = nullptr;
	int data = 0;
};

struct Client { sockaddr_in a; int id; };
void clientThread(void* arg)
{
	Client* c = (Client*)arg;
	mc_k_plain(true);
	int fd = socket(AF_INET, SOCK_STREAM, 0);
	bool early = !gListening;
	int rc = connect(fd, (sockaddr*)&c->a, sizeof(c->a));
	if (rc != 0 && early)
	{
		// Too early.
		mc_wait_until([](void*) -> bool { return gListening != 0; }, nullptr);
		close(fd);
		fd = socket(AF_INET, SOCK_STREAM, 0);
		rc = connect(fd, (sockaddr*)&c->a, sizeof(c->a));
	}
	if (rc != 0)
	{
		MC_CHECKF(gSrvCloseReq > 0 || mc_param("faults", 0), "could not connect");
		close(fd);
		++gClientReset;
		++gClientDone;
		return;
	}
	sockaddr_in me;
	socklen_t len = sizeof(me);
	MC_CHECK(getsockname(fd, (sockaddr*)&me, &len) == 0);
	gClientPort[c->id] = ntohs(me.sin_port);
	uint8_t b = 0;
	ssize_t n = recv(fd, &b, 1, 0);
	if (n == 1)
		MC_CHECKF(b == (uint8_t)ntohs(me.sin_port), "the peer address of another client");
	else
		++gClientReset;
	++gClientDone;
	close(fd);
}
void closeThread(void* arg)
{
	gSrvCloseReq = 1;
	((TCPServer*)arg)->PostClose();
}

Host localHost()
{
	Host h;
	h.Set("127.0.0.1");
	return h;
}

}

// Each client is accepted exactly once, the failed ones do not break the others, and the closure is final.
MC_SCENARIO(server_accept)
{
	int workers = (int)mc_param("workers", 1);
	int clients = (int)mc_param("clients", 2);
	// Who closes: the end, an accept, a thread at any moment, two threads.
	int who = mc_choose(4);
	// The first clients come before the listening has started, or is fully started.
	int early = mc_choose(2);
	{
		IOCore core;
		mc_serial_begin();
		core.Start(workers);
		mc_settle();
		mc_k_faults((int)mc_param("faults", 0));
		gWantAccepts = clients;
		gAct = who == 1;
		SrvSub sub;
		TCPServer::Ptr srv = TCPServer::NewShared(core);
		sub.srv = srv.GetPointer();
		Error::Ptr err;
		MC_CHECK(srv->Bind(localHost(), err));
		Client c[MAXC];
		for (int i = 0; i < clients; ++i)
		{
			memset(&c[i].a, 0, sizeof(c[i].a));
			c[i].a.sin_family = AF_INET;
			c[i].a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			c[i].a.sin_port = htons(srv->GetPort());
			c[i].id = i;
		}
		mc_serial_end();
		int t[MAXC], t2 = -1;
		if (early)
		{
			for (int i = 0; i < clients; ++i)
				t[i] = mc_spawn(clientThread, &c[i], "client");
		}
		MC_CHECK(srv->Listen(8, &sub, err));
		gListening = 1;
		if (!early)
		{
			for (int i = 0; i < clients; ++i)
				t[i] = mc_spawn(clientThread, &c[i], "client");
		}
		if (who == 0)
			mc_wait_until(srvAccepted, nullptr);
		if (who == 3)
			t2 = mc_spawn(closeThread, sub.srv, "closer");
		if (who != 1 || clients == 0)
			closeThread(sub.srv);
		if (t2 >= 0)
			mc_join(t2);
		if (who == 0)
			MC_CHECKF(gAccepted + gClientReset == clients && (gClientReset == 0 || mc_param("faults", 0)), "%d of %d are accepted", gAccepted, clients);
		if (who == 1 && mc_param("faults", 0))
		{
			// All could be broken before an accept.
			mc_wait_until(srvAccepted, nullptr);
			closeThread(sub.srv);
		}
		mc_wait_until(srvClosed, nullptr);
		// Can be repeated any time.
		srv->PostClose();
		for (int i = 0; i < clients; ++i)
			mc_join(t[i]);
		finishCore(core);
		MC_CHECK(gSrvClosed == 1 && gClientDone == clients);
		MC_CHECK(sub.data == gAccepted + 1);
		MC_CHECK(srv->IsClosed());
		srv.Clear();
		mc_outcome("w=%d a=%d r=%d", who, gAccepted, gClientReset);
	}
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}

// Not listening servers.
MC_SCENARIO(server_unused)
{
	int step = mc_choose(4);
	int closes = mc_choose(3);
	{
		IOCore core;
		mc_serial_begin();
		core.Start(1);
		mc_settle();
		SrvSub sub;
		TCPServer::Ptr srv = TCPServer::NewShared(core);
		Error::Ptr err;
		int other = -1;
		sockaddr_in a;
		if (step >= 1)
		{
			Host h = localHost();
			if (step == 2)
			{
				// The port is in use.
				other = rawListen(a);
				h.SetPort(ntohs(a.sin_port));
				MC_CHECK(!srv->Bind(h, err));
				MC_CHECK(err.IsSet());
				MC_CHECKF(err->myCode == mg::box::ERR_NET_ADDR_IN_USE, "error %d", (int)err->myCode);
				err.Clear();
				// Can be retried.
				MC_CHECK(srv->Bind(localHost(), err));
				close(other);
			}
			else
			{
				MC_CHECK(srv->Bind(h, err));
				MC_CHECK(srv->GetPort() != 0);
			}
		}
		if (step == 3)
		{
			// Nobody comes.
			sub.srv = srv.GetPointer();
			MC_CHECK(srv->Listen(1, &sub, err));
			mc_settle();
			closes += closes == 0;
			gSrvCloseReq = 1;
		}
		// The destruction alone is enough for a new one, a bound one must be closed.
		if (step > 0)
			closes += closes == 0;
		MC_CHECK(!srv->IsClosed());
		for (int i = 0; i < closes; ++i)
			srv->PostClose();
		if (step == 3)
			mc_wait_until(srvClosed, nullptr);
		if (closes > 0)
		{
			MC_CHECK(srv->IsClosed());
			MC_CHECKF(mc_k_open(K_SOCK) == 0, "a closed server keeps its descriptor");
		}
		srv.Clear();
		finishCore(core);
		mc_outcome("s=%d c=%d", step, closes);
	}
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}
