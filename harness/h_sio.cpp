// Polled (synchronous) sockets: all sequences of calls of two connected sides, the server and the network.
#include "mc.h"
#include "kern.h"
#include "mg/box/Error.h"
#include "mg/net/Buffer.h"
#include "mg/net/Host.h"
#include "mg/sio/Socket.h"
#include "mg/sio/TCPServer.h"
#include "mg/sio/TCPSocket.h"
#include <errno.h>
#include <string.h>
#include <sys/socket.h>

using mg::box::Error;
using mg::net::Buffer;
using mg::net::Host;
using namespace mg::sio;

namespace {

enum { CLOSED, CONNECTING, CONNECTED };

struct Side
{
	TCPSocket* sock;
	int state;      // by the model
	int conn;       // number of the connection, gives the contents
	int id;
	int posted;     // given to the socket for sending
	int got;        // received
	bool refused;   // nobody listens on that address
	bool dead;      // and never will
	bool broken;    // the other side is closed or reset
	uint8_t data[64];
};

Side gSides[2];
TCPServer* gServer;
Host* gHost;
bool gServerOpen;
int gNext;         // connection numbers
int gFaults;

uint8_t pattern(int from, int conn, int i) { return (uint8_t)(from * 101 + conn * 29 + i * 7 + 3); }

void checkState(Side& s)
{
	MC_CHECKF(s.sock->IsClosed() == (s.state == CLOSED) && s.sock->IsConnecting() == (s.state == CONNECTING) &&
		s.sock->IsConnected() == (s.state == CONNECTED), "side %d: the state is wrong: expected %d", s.id, s.state);
}

Side& other(Side& s) { return gSides[1 - s.id]; }
bool paired(Side& s) { return s.state == CONNECTED && other(s).state == CONNECTED && s.conn == other(s).conn; }

void lost(Side& s)
{
	// This side is closed: the other one will see that if they are or will be connected.
	if (other(s).conn == s.conn && other(s).state != CLOSED)
		other(s).broken = true;
	s.state = CLOSED;
}

void connectOp(Side& s)
{
	if (s.state != CLOSED || gNext >= 3)
		mc_discard();
	int how = mc_choose(4);
	mc_k_conn_mode(how & 1);
	Host h = *gHost;
	bool dead = (how & 2) != 0 || !gServerOpen;
	if (how & 2)
		h.SetPort(1);
	Error::Ptr err;
	s.conn = ++gNext;
	s.posted = s.got = 0;
	s.broken = false;
	s.refused = dead;
	s.dead = (how & 2) != 0;
	bool ok = s.sock->Connect(h, err);
	MC_CHECKF(ok == !err.IsSet(), "the result of a connect does not match the error");
	if (!ok)
	{
		s.state = CLOSED;
		MC_CHECKF((dead && (how & 1)) || gFaults, "a connect failed without a reason");
		if (dead && !gFaults)
			MC_CHECKF(err->myCode == mg::box::ErrorCodeFromErrno(ECONNREFUSED), "a refused connect gives the error %d", (int)err->myCode);
		return;
	}
	s.state = s.sock->IsConnected() ? CONNECTED : CONNECTING;
	MC_CHECKF(gFaults || s.state == ((how & 1) ? CONNECTED : CONNECTING), "the state after a connect is wrong");
}

void updateOp(Side& s)
{
	Error::Ptr err;
	bool ok = s.sock->Update(err);
	MC_CHECKF(ok == !err.IsSet(), "the result of an update does not match the error");
	if (!ok)
	{
		MC_CHECKF(s.state != CLOSED, "an update of a closed socket failed");
		MC_CHECKF(s.broken || s.refused || gFaults, "an update failed without a reason");
		if (s.state == CONNECTING && s.refused && !s.broken && !gFaults)
			MC_CHECKF(err->myCode == mg::box::ErrorCodeFromErrno(ECONNREFUSED), "a refused connect gives the error %d", (int)err->myCode);
		if (s.state == CONNECTING && gFaults)
			MC_CHECKF(err->myCode == mg::box::ErrorCodeFromErrno(ECONNREFUSED) || err->myCode == mg::box::ErrorCodeFromErrno(ETIMEDOUT) ||
				err->myCode == mg::box::ErrorCodeFromErrno(ECONNRESET), "a failed connect gives the error %d", (int)err->myCode);
		lost(s);
		return;
	}
	if (s.state == CONNECTING && s.sock->IsConnected())
	{
		MC_CHECKF(!s.refused, "a refused connection is established");
		s.state = CONNECTED;
	}
}

void acceptOp()
{
	if (!gServerOpen)
		mc_discard();
	Error::Ptr err;
	Host peer;
	mg::net::Socket fd = gServer->Accept(peer, err);
	if (fd == mg::net::theInvalidSocket)
	{
		if (err.IsSet())
		{
			MC_CHECKF(gFaults, "an accept failed without a reason");
			gServerOpen = false;
			if (gSides[0].state != CLOSED)
				gSides[0].broken = true;
		}
		return;
	}
	MC_CHECKF(!err.IsSet(), "an accepted client with an error");
	sockaddr_storage a;
	socklen_t len = sizeof(a);
	bool alive = getpeername(fd, (sockaddr*)&a, &len) == 0;
	MC_CHECKF(!alive || (len == peer.GetSockaddrSize() && memcmp(&a, &peer.myAddr, len) == 0), "wrong peer address");
	Side& s = gSides[1];
	// Whose connection is that is known by the port. The client might be gone already.
	bool current = false;
	for (int f = 3; alive && f < 30 && gSides[0].state != CLOSED; ++f)
	{
		sockaddr_storage l;
		socklen_t llen = sizeof(l);
		if (f != fd && mc_k_state(f) == KS_CONN && getsockname(f, (sockaddr*)&l, &llen) == 0 && llen == len && memcmp(&l, &a, len) == 0)
			current = true;
	}
	if (s.state != CLOSED)
	{
		mg::net::SocketClose(fd);
		if (current)
			gSides[0].broken = true;
		return;
	}
	s.sock->Wrap(fd);
	s.state = CONNECTED;
	s.posted = s.got = 0;
	s.refused = false;
	s.conn = 0;
	s.broken = true;
	if (current)
	{
		s.conn = gSides[0].conn;
		s.broken = gSides[0].broken;
	}
}

void sendOp(Side& s)
{
	int how = mc_choose(5);
	static const int sizes[] = {1, 3, 6, 0};
	int n = sizes[mc_choose((int)mc_param("sizes", 4))];
	if (how == 3 && s.state == CONNECTING)
		mc_discard();
	if (how == 3 && s.state == CLOSED)
		mc_discard();
	if (s.state != CLOSED && s.posted + n > 60)
		mc_discard();
	uint8_t tmp[8];
	static uint8_t refs[2][64];
	uint8_t* d = s.state == CLOSED ? tmp : &refs[s.id][s.posted];
	for (int i = 0; i < n; ++i)
		d[i] = pattern(s.id, s.conn, s.posted + i);
	switch (how)
	{
	case 0: s.sock->SendRef(d, n); break;
	case 1: s.sock->SendRef(mg::net::BuffersCopy(d, n)); break;
	case 2:
	{
		// With empty ones around and inside.
		Buffer::Ptr h = mg::net::BufferRaw::NewShared(d, 0u, 0u);
		h->myNext = mg::net::BuffersRef(d, n / 2);
		(h->myNext.IsSet() ? h->myNext->myNext : h->myNext) = mg::net::BufferRaw::NewShared(d, 0u, 0u);
		Buffer* t = h.GetPointer();
		while (t->myNext.IsSet())
			t = t->myNext.GetPointer();
		t->myNext = mg::net::BuffersRef(d + n / 2, n - n / 2);
		s.sock->SendRef(h.GetPointer());
		break;
	}
	case 3:
		s.sock->SendCopy(d, n);
		break;
	default:
		s.sock->SendRef(mg::net::BuffersRef(d, n));
		break;
	}
	if (s.state != CLOSED)
		s.posted += n;
	if (how == 3)
		memset(d, 0xEE, n);
}

void recvOp(Side& s)
{
	if (s.state != CONNECTED)
		mc_discard();
	int how = mc_choose(3);
	Error::Ptr err;
	uint8_t buf[40];
	memset(buf, 0xAB, sizeof(buf));
	int64_t rc;
	int limit = how == 0 ? 1 : 32;
	if (how < 2)
		rc = s.sock->Recv(buf, limit, err);
	else
	{
		Buffer::Ptr h = mg::net::BufferRaw::NewShared(buf, 0u, 2u);
		h->myNext = mg::net::BufferRaw::NewShared(buf + 2, 0u, 30u);
		rc = s.sock->Recv(h.GetPointer(), err);
	}
	MC_CHECKF(rc <= limit && buf[limit] == 0xAB, "more is received than there is room for");
	if (rc > 0)
	{
		MC_CHECKF(!err.IsSet(), "an error with data");
		MC_CHECKF(s.conn == 0 || s.got + rc <= (other(s).conn == s.conn ? other(s).posted : 64), "more is received than was sent");
		for (int i = 0; i < rc; ++i)
			if (s.conn != 0)
				MC_CHECKF(buf[i] == pattern(1 - s.id, s.conn, s.got + i), "byte %d is wrong", s.got + i);
		s.got += (int)rc;
		return;
	}
	if (rc < 0 && !err.IsSet())
		return;
	MC_CHECKF((rc < 0) == err.IsSet(), "the result of a receive does not match the error");
	MC_CHECKF(s.broken || gFaults, "a receive ended without a reason: %d", (int)rc);
	lost(s);
}

void closeOp(Side& s)
{
	s.sock->Close();
	if (s.state != CLOSED)
		lost(s);
}

bool listenOp()
{
	Error::Ptr err;
	Host h = gHost->GetPort() != 0 ? *gHost : gHost->IsIPV4() ? mg::net::HostMakeLocalIPV4(0) : mg::net::HostMakeLocalIPV6(0);
	bool ok = gServer->Bind(h, err);
	MC_CHECKF(ok == !err.IsSet(), "the result of a bind does not match the error");
	if (!ok)
	{
		MC_CHECKF(gFaults, "a bind failed without a reason");
		MC_CHECKF(gSides[0].state != CLOSED || gSides[1].state != CLOSED || mc_k_open(K_SOCK) == 0, "a descriptor is leaked");
		return false;
	}
	gHost->SetPort(gServer->GetPort());
	MC_CHECK(gHost->GetPort() != 0);
	ok = gServer->Listen(mg::net::SocketMaxBacklog(), err);
	MC_CHECKF(ok && !err.IsSet(), "a listen failed without a reason");
	MC_CHECKF(gServer->GetPort() == gHost->GetPort(), "the port is changed");
	gServerOpen = true;
	// The ones still in progress might find it now.
	if (gSides[0].state == CONNECTING && gSides[0].refused && !gSides[0].dead)
	{
		gSides[0].refused = false;
		gSides[0].broken = true;
	}
	return true;
}

void step(int op)
{
	Side& s = gSides[op & 1];
	switch (op >> 1)
	{
	case 0: updateOp(s); break;
	case 1: sendOp(s); break;
	case 2: recvOp(s); break;
	case 3: closeOp(s); break;
	case 4: if (op & 1) acceptOp(); else connectOp(s); break;
	case 5:
		if (op & 1)
		{
			if (!mc_k_pump_step())
				mc_discard();
			break;
		}
		if (gServerOpen)
		{
			gServer->Close();
			gServerOpen = false;
			// Not accepted ones are broken.
			if (gSides[0].state != CLOSED && !(gSides[1].state != CLOSED && gSides[1].conn == gSides[0].conn))
				gSides[0].broken = true;
		}
		else
			listenOp();
		break;
	}
	checkState(gSides[0]);
	checkState(gSides[1]);
}

// Everything arrives while both are open, and then the end.
void finish()
{
	mc_k_faults(0);
	while (mc_k_pump_step());
	for (int i = 0; i < 2; ++i)
		if (gSides[0].state != CLOSED)
			updateOp(gSides[0]);
	checkState(gSides[0]);
	MC_CHECKF(gSides[0].state != CONNECTING, "a connect hangs");
	for (int i = 0; i < 4 && gServerOpen && gSides[1].state == CLOSED && gSides[0].state == CONNECTED && !gSides[0].broken; ++i)
		acceptOp();
	Side& a = gSides[0];
	Side& b = gSides[1];
	int full = 0;
	if (paired(a) && !a.broken && !b.broken && !gFaults)
	{
		for (int i = 0; i < 140 && a.state == CONNECTED && b.state == CONNECTED && (a.got < b.posted || b.got < a.posted); ++i)
		{
			updateOp(a);
			updateOp(b);
			for (Side* s : {&a, &b})
			{
				if (s->state != CONNECTED)
					continue;
				Error::Ptr err;
				uint8_t buf[32];
				int64_t rc = s->sock->Recv(buf, 32, err);
				MC_CHECKF(rc > 0 || (rc < 0 && !err.IsSet()), "a receive ended without a reason");
				for (int k = 0; k < rc; ++k)
					MC_CHECKF(buf[k] == pattern(1 - s->id, s->conn, s->got + k), "byte %d is wrong", s->got + k);
				s->got += rc > 0 ? (int)rc : 0;
			}
		}
		MC_CHECKF(a.got == b.posted && b.got == a.posted, "data is lost: %d of %d, %d of %d", a.got, b.posted, b.got, a.posted);
		full = 1;
		a.sock->Close();
		Error::Ptr err;
		uint8_t c;
		MC_CHECKF(b.sock->Recv(&c, 1, err) == 0 && !err.IsSet() && b.sock->IsClosed(), "no end of the stream");
	}
	mc_outcome("%d %d %d %d %d%d", full, gNext, a.got, b.got, a.state, b.state);
	delete a.sock;
	delete b.sock;
	delete gServer;
	delete gHost;
	MC_CHECKF(mc_k_open(K_SOCK) == 0, "a descriptor is leaked");
}

}

MC_SCENARIO(sio_calls)
{
	int depth = (int)mc_param("depth", 4);
	mc_k_pump_on();
	mc_k_capacity(4);
	gFaults = 0;
	gNext = 0;
	gServer = new TCPServer();
	gServerOpen = false;
	for (int i = 0; i < 2; ++i)
	{
		gSides[i] = Side();
		gSides[i].id = i;
		gSides[i].sock = new TCPSocket();
	}
	gHost = new Host(mc_param("ipv6", 0) ? mg::net::HostMakeLocalIPV6(0) : mg::net::HostMakeLocalIPV4(0));
	listenOp();
	int stage = mc_choose((int)mc_param("stages", 5));
	mc_k_conn_mode(0);
	Error::Ptr err;
	if (stage >= 1)
	{
		Side& s = gSides[0];
		s.conn = ++gNext;
		MC_CHECK(s.sock->Connect(*gHost, err));
		s.state = CONNECTING;
	}
	if (stage >= 2)
	{
		mc_k_pump_step();
		step(0);
		step(9);
	}
	if (stage == 3)
	{
		// Data in both directions, partially sent.
		for (Side& s : gSides)
		{
			uint8_t d[6];
			for (int i = 0; i < 6; ++i)
				d[i] = pattern(s.id, s.conn, i);
			s.sock->SendCopy(d, 6);
			s.posted = 6;
			updateOp(s);
		}
	}
	if (stage == 4)
	{
		// The second connection, the first one broken in the middle.
		Side& s = gSides[0];
		for (Side& s2 : gSides)
		{
			uint8_t d[6] = {};
			s2.sock->SendCopy(d, 6);
			updateOp(s2);
			closeOp(s2);
		}
		s.conn = ++gNext;
		s.broken = false;
		MC_CHECK(s.sock->Connect(*gHost, err));
		s.state = CONNECTING;
		s.posted = s.got = 0;
		mc_k_pump_step();
		step(0);
		step(9);
	}
	int faults = (int)mc_param("faults", 0);
	mc_k_faults(faults);
	gFaults = faults & ~(KF_SHORT | KF_SEND_EAGAIN);
	for (int i = 0; i < depth; ++i)
		step(mc_choose(12));
	finish();
}
