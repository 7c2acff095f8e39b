// Helpers for the scenarios with sockets: connected pairs, raw peers, a listener with an oracle.
#pragma once
#include "mc.h"
#include "kern.h"
#include "mg/aio/IOCore.h"
#include "mg/aio/TCPSocket.h"
#include "mg/aio/TCPSocketSubscription.h"
#include "mg/box/Error.h"
#include "mg/box/Time.h"
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>

using mg::aio::IOCore;
using mg::aio::TCPSocket;
using mg::aio::TCPSocketIFace;
using mg::aio::TCPSocketSubscription;
using mg::box::Error;
using mg::net::BufferReadStream;

#define ORACLE __attribute__((section("mcoracle")))

namespace {

inline uint8_t streamByte(int stream, int i) { return (uint8_t)(1 + (stream * 101 + i * 7 + (i >> 4)) % 251); }

// A raw listening socket on the local host.
inline int rawListen(sockaddr_in& a, int family = AF_INET)
{
	(void)family;
	int l = socket(AF_INET, SOCK_STREAM, 0);
	memset(&a, 0, sizeof(a));
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	a.sin_port = 0;
	MC_CHECK(bind(l, (sockaddr*)&a, sizeof(a)) == 0);
	socklen_t len = sizeof(a);
	MC_CHECK(getsockname(l, (sockaddr*)&a, &len) == 0);
	MC_CHECK(listen(l, 16) == 0);
	return l;
}
inline int rawConnect(const sockaddr_in& a)
{
	int c = socket(AF_INET, SOCK_STREAM, 0);
	MC_CHECK(connect(c, (const sockaddr*)&a, sizeof(a)) == 0);
	return c;
}
// A connected pair: the first is non-blocking, the second is blocking.
inline void rawPair(int& aio, int& peer)
{
	sockaddr_in a;
	int l = rawListen(a);
	peer = rawConnect(a);
	aio = accept4(l, nullptr, nullptr, SOCK_NONBLOCK);
	MC_CHECK(aio >= 0);
	close(l);
}

inline void startCore(IOCore& core, int workers)
{
	mc_serial_begin();
	core.Start(workers);
	mc_settle();
	mc_serial_end();
}
inline void finishCore(IOCore& core)
{
	mc_serial_begin();
	MC_CHECKF(core.WaitEmpty(mg::box::TimeDuration(100000)) == 0, "the core is not empty");
	core.Stop();
}

const int MAXSOCK = 4;
struct SockOracle
{
	int in;          // in a callback now
	int connects, connectErrors, errors, sendErrors, recvErrors, closes, events, opens;
	int sent;        // reported as sent
	int toSend;      // given for sending
	int got;         // received
	int recvReq;     // bytes requested in total
	int lastErr;
	int closeReq;    // somebody has asked for a closure or a shutdown
	uint64_t connectNs, errorNs;
	int firstCb;
	int nextIsError; // OnError must be the next
};
ORACLE SockOracle gS[MAXSOCK];

// The protocol of the callbacks.
struct TcpSub : public TCPSocketSubscription
{
	TcpSub(int i) : id(i) {}
	~TcpSub() override {}
	SockOracle& o() { return gS[id]; }

	void enter(bool isError = false)
	{
		SockOracle& s = o();
		MC_CHECKF(s.in == 0, "socket %d: two callbacks at once", id);
		s.in = 1;
		MC_CHECKF(s.closes == 0, "socket %d: a callback after the closing one", id);
		MC_CHECKF(isError || !s.nextIsError, "socket %d: a specific error is not followed by the generic one", id);
		MC_CHECKF(sock->IsInWorkerNow(), "socket %d: a callback not in a worker", id);
		int d = data;
		mc_point();
		data = d + 1;
	}
	void leave() { o().in = 0; }

	void OnConnect() override
	{
		enter();
		SockOracle& s = o();
		MC_CHECKF(++s.connects == 1, "socket %d: a second connect callback", id);
		MC_CHECKF(s.connectErrors + s.errors == 0, "socket %d: connected after an error", id);
		MC_CHECKF(s.sent == 0 && s.got == 0, "socket %d: data before the connect", id);
		MC_CHECKF(sock->IsConnected() || s.closeReq, "socket %d: is not connected", id);
		s.connectNs = mc_now_ns();
		onConnect();
		leave();
	}
	void OnConnectError(Error* e) override
	{
		enter();
		SockOracle& s = o();
		MC_CHECKF(++s.connectErrors == 1, "socket %d: a second connect error", id);
		MC_CHECKF(s.connects == 0, "socket %d: a connect error when is connected", id);
		MC_CHECK(e != nullptr);
		s.nextIsError = 1;
		leave();
	}
	void OnSendError(Error* e) override
	{
		enter();
		MC_CHECKF(++o().sendErrors == 1, "socket %d: a second send error", id);
		MC_CHECK(e != nullptr);
		o().nextIsError = 1;
		leave();
	}
	void OnRecvError(Error* e) override
	{
		enter();
		MC_CHECKF(++o().recvErrors == 1, "socket %d: a second receive error", id);
		MC_CHECK(e != nullptr);
		o().nextIsError = 1;
		leave();
	}
	void OnError(Error* e) override
	{
		enter(true);
		SockOracle& s = o();
		s.nextIsError = 0;
		MC_CHECKF(++s.errors == 1, "socket %d: a second error", id);
		MC_CHECK(e != nullptr);
		s.lastErr = (int)e->myCode;
		s.errorNs = mc_now_ns();
		onError(e);
		leave();
	}
	void OnSend(uint32_t n) override
	{
		enter();
		SockOracle& s = o();
		MC_CHECKF(s.connects == 1, "socket %d: data is sent before the connect", id);
		MC_CHECKF(n > 0, "socket %d: nothing is sent", id);
		s.sent += n;
		MC_CHECKF(s.sent <= s.toSend, "socket %d: %d bytes are sent, %d were given", id, s.sent, s.toSend);
		onSend((int)n);
		leave();
	}
	void OnRecv(BufferReadStream& st) override
	{
		enter();
		SockOracle& s = o();
		MC_CHECKF(s.connects == 1, "socket %d: data is received before the connect", id);
		MC_CHECKF(!st.IsEmpty(), "socket %d: nothing is received", id);
		onRecv(st);
		leave();
	}
	void OnEvent() override
	{
		enter();
		++o().events;
		onEvent();
		leave();
	}
	void OnClose() override
	{
		enter();
		SockOracle& s = o();
		MC_CHECKF(sock->IsClosed(), "socket %d: is not closed in the closing callback", id);
		MC_CHECKF(!sock->IsConnected(), "socket %d: is connected in the closing callback", id);
		++s.closes;
		s.in = 0;
		onClose();
	}

	virtual void onConnect() {}
	virtual void onError(Error*) {}
	virtual void onSend(int) {}
	virtual void onEvent() {}
	virtual void onClose() {}
	virtual void onRecv(BufferReadStream& st) { take(st, (int)st.GetReadSize()); }

	// Checks the next bytes of the incoming stream.
	void take(BufferReadStream& st, int n)
	{
		uint8_t buf[64];
		MC_CHECK(n <= 64);
		st.ReadData(buf, n);
		for (int i = 0; i < n; ++i)
		{
			MC_CHECKF(buf[i] == streamByte(inStream, o().got), "socket %d: received byte %d is %d instead of %d", id, o().got, buf[i], streamByte(inStream, o().got));
			++o().got;
		}
	}
	// The next bytes of the outgoing stream in different forms.
	void send(int n, int how, bool post)
	{
		uint8_t* buf = new uint8_t[64];
		int base = o().toSend;
		for (int i = 0; i < n; ++i)
			buf[i] = streamByte(outStream, base + i);
		o().toSend += n;
		switch (how)
		{
		case 0:
			if (post) sock->PostSendCopy(buf, n); else sock->SendCopy(buf, n);
			memset(buf, 0, 64);
			delete[] buf;
			break;
		case 1:
			// The memory is in use until everything is sent.
			keep[nKeep++] = buf;
			if (post) sock->PostSendRef(buf, n); else sock->SendRef(buf, n);
			break;
		case 2:
		{
			mg::net::BufferLink* l = nullptr;
			mg::net::BufferLink** t = &l;
			for (int i = 0; i < n; i += 2)
			{
				*t = new mg::net::BufferLink(mg::net::BuffersCopy(buf + i, n - i > 2 ? 2 : n - i));
				t = &(*t)->myNext;
			}
			memset(buf, 0, 64);
			delete[] buf;
			if (post) sock->PostSendMove(l); else sock->SendMove(l);
			break;
		}
		default:
		{
			mg::net::Buffer::Ptr p = mg::net::BuffersCopy(buf, n);
			delete[] buf;
			if (post) sock->PostSendRef(std::move(p)); else sock->SendRef(std::move(p));
			break;
		}
		}
	}
	void recv(int n, bool post)
	{
		o().recvReq += n;
		if (post) sock->PostRecv(n); else sock->Recv(n);
	}
	void freeKeep()
	{
		for (int i = 0; i < nKeep; ++i)
			delete[] keep[i];
		nKeep = 0;
	}

	TCPSocketIFace* sock = nullptr;
	int id;
	int data = 0;
	int inStream = 0, outStream = 1;
	uint8_t* keep[8];
	int nKeep = 0;
};

// A raw peer with blocking calls.
struct Peer
{
	int fd;
	int send;       // bytes to send
	int sendChunk;
	int recv;       // bytes to receive, -1 - until the end
	int first;      // 0 - send, 1 - receive, 2 - alternate
	int outStream = 0, inStream = 1;
	bool closeEnd = false;
};
ORACLE int gPeerGot[MAXSOCK];
ORACLE int gPeerEof[MAXSOCK];
ORACLE int gPeerErr[MAXSOCK];
ORACLE int gPeerSent[MAXSOCK];

inline bool peerSend(Peer* p, int k, int n)
{
	uint8_t b[64];
	for (int i = 0; i < n; ++i)
		b[i] = streamByte(p->outStream, gPeerSent[k] + i);
	int done = 0;
	while (done < n)
	{
		ssize_t rc = ::send(p->fd, b + done, n - done, MSG_NOSIGNAL);
		if (rc <= 0)
		{
			gPeerErr[k] = errno;
			return false;
		}
		done += rc;
		gPeerSent[k] += rc;
	}
	return true;
}
inline bool peerRecv(Peer* p, int k, int n)
{
	uint8_t b[64];
	while (n > 0)
	{
		ssize_t rc = ::recv(p->fd, b, n < 64 ? n : 64, 0);
		if (rc < 0)
		{
			gPeerErr[k] = errno;
			return false;
		}
		if (rc == 0)
		{
			gPeerEof[k] = 1;
			return false;
		}
		for (int i = 0; i < rc; ++i)
		{
			MC_CHECKF(b[i] == streamByte(p->inStream, gPeerGot[k]), "the peer has received %d at %d instead of %d", b[i], gPeerGot[k], streamByte(p->inStream, gPeerGot[k]));
			++gPeerGot[k];
		}
		n -= rc;
	}
	return true;
}
inline void peerRun(Peer* p, int k)
{
	int s = p->send, r = p->recv < 0 ? 1 << 20 : p->recv;
	bool ok = true;
	if (p->first == 0)
	{
		while (ok && s > 0)
		{
			int n = s < p->sendChunk ? s : p->sendChunk;
			ok = peerSend(p, k, n);
			s -= n;
		}
		if (ok) peerRecv(p, k, r);
	}
	else if (p->first == 1)
	{
		ok = peerRecv(p, k, r);
		while (ok && s > 0)
		{
			int n = s < p->sendChunk ? s : p->sendChunk;
			ok = peerSend(p, k, n);
			s -= n;
		}
	}
	else
	{
		while (ok && (s > 0 || r > 0))
		{
			if (r > 0)
			{
				ok = peerRecv(p, k, 1);
				--r;
			}
			if (ok && s > 0)
			{
				int n = s < p->sendChunk ? s : p->sendChunk;
				ok = peerSend(p, k, n);
				s -= n;
			}
		}
	}
	if (p->closeEnd)
		close(p->fd);
}
inline void peerThread0(void* a) { mc_k_plain(true); peerRun((Peer*)a, 0); }
inline void peerThread1(void* a) { mc_k_plain(true); peerRun((Peer*)a, 1); }

inline bool closed0(void*) { return gS[0].closes > 0; }
inline bool closedBoth(void*) { return gS[0].closes > 0 && gS[1].closes > 0; }
inline void pumpThread(void*) { mc_k_pump(); }

}
