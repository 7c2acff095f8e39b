#pragma once
// TCPSocket: the life cycle - connects to all kinds of targets, closures by everybody at any moment, re-use.
#include "tcp_common.h"
#include "mg/net/Host.h"
#include <netdb.h>
#include <stdio.h>

namespace {

enum Target { T_OK, T_REFUSED, T_DNS, T_DNS_UNKNOWN, T_FD, T_FD_REFUSED, T_DNS_FAMILY, T_DNS_REFUSED, T_WRAP, T_COUNT };
enum Act { A_ECHO, A_CLOSE, A_SHUTDOWN, A_EOF, A_RST, A_IDLE, A_SILENT, A_COUNT };
enum Ext { E_NONE, E_CLOSE, E_SHUTDOWN, E_DELETE, E_WAKEUP, E_SEND, E_RECV, E_COUNT };

#ifdef LIFE_SSL
// The SSL socket without encryption has to behave exactly like the plain one.
using LifeSocket = mg::aio::SSLSocket;
inline void lifeOpen(LifeSocket* s)
{
	mg::aio::SSLSocketParams p;
	p.myDoEncrypt = false;
	s->Open(p);
}
#else
using LifeSocket = TCPSocket;
inline void lifeOpen(LifeSocket* s) { s->Open(mg::aio::TCPSocketParams()); }
#endif

inline bool targetFails(int t) { return t == T_REFUSED || t == T_DNS_UNKNOWN || t == T_FD_REFUSED || t == T_DNS_FAMILY || t == T_DNS_REFUSED; }

ORACLE int gLives;
ORACLE int gTotalConnects;
ORACLE int gAllClosed;
ORACLE int gStopPeer;
ORACLE uint64_t gStartNs;
ORACLE int gFaulty;
bool allClosed(void*) { return gAllClosed > 0; }

struct LifeSub : public TcpSub
{
	using TcpSub::TcpSub;

	void params(mg::aio::TCPSocketConnectParams& p)
	{
		char buf[64];
		const char* h = "127.0.0.1";
		if (target == T_DNS || target == T_DNS_FAMILY || target == T_DNS_REFUSED)
			h = "good.host";
		else if (target == T_DNS_UNKNOWN)
			h = "no.such";
		int pr = target == T_REFUSED || target == T_FD_REFUSED || target == T_DNS_REFUSED ? 1 : port;
		snprintf(buf, sizeof(buf), "%s:%d", h, pr);
		p.myEndpoint = buf;
		if (target == T_DNS_FAMILY)
			p.myAddrFamily = mg::net::ADDR_FAMILY_IPV6;
		if (target == T_FD || target == T_FD_REFUSED)
		{
			p.mySocket = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
			MC_CHECK(p.mySocket >= 0);
		}
		if (delay > 0)
			p.myDelay = mg::box::TimeDuration(delay);
	}
	void start()
	{
		gStartNs = mc_now_ns();
		if (inTask)
		{
			connectDone = false;
			sock->PostTask(this);
			sock->PostWakeup();
			return;
		}
		if (target == T_WRAP)
		{
			mc_k_plain(true);
			sockaddr_in a;
			memset(&a, 0, sizeof(a));
			a.sin_family = AF_INET;
			a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			a.sin_port = htons(port);
			int fd = rawConnect(a);
			MC_CHECK(fcntl(fd, F_SETFL, O_NONBLOCK) == 0);
			mc_k_plain(false);
			sock->PostWrap(fd, this);
			return;
		}
		mg::aio::TCPSocketConnectParams p;
		mc_k_plain(true);
		params(p);
		mc_k_plain(false);
		sock->PostConnect(p, this);
	}
	void onEvent() override
	{
		if (inTask && !connectDone)
		{
			connectDone = true;
			mg::aio::TCPSocketConnectParams p;
			mc_k_plain(true);
			params(p);
			mc_k_plain(false);
			sock->Connect(p);
		}
	}
	void onConnect() override
	{
		MC_CHECKF(!targetFails(target), "connected to nowhere");
		MC_CHECKF(mc_now_ns() - gStartNs >= (uint64_t)delay * 1000000, "connected too early");
		switch (act)
		{
		case A_ECHO:
			send(1, 0, false);
			recv(1, false);
			break;
		case A_CLOSE:
			o().closeReq = 1;
			sock->PostClose();
			break;
		case A_SHUTDOWN:
			o().closeReq = 1;
			sock->PostShutdown();
			// To notice when the peer is closed.
			recv(1, false);
			break;
		case A_SILENT:
			// The receipt is requested by the external thread.
			break;
		default:
			recv(1, false);
			break;
		}
	}
	void onError(Error* e) override
	{
		SockOracle& s = o();
		// There is nobody to blame.
		if (!s.closeReq && !gFaulty && act != A_RST)
			MC_CHECKF(targetFails(target), "an error %d", (int)e->myCode);
		if (!gFaulty && s.connects == 0)
		{
			if (target == T_DNS_UNKNOWN || target == T_DNS_FAMILY)
				MC_CHECKF(e->myCode == mg::box::ERR_NET_ADDR_NOT_AVAIL, "error %d of a not resolved domain", (int)e->myCode);
		}
	}
	void onRecv(BufferReadStream& st) override
	{
		MC_CHECKF(act == A_ECHO, "data from nowhere");
		take(st, (int)st.GetReadSize());
		MC_CHECKF(o().got == 1 && o().toSend >= 1, "a response without a request");
		o().closeReq = 1;
		sock->PostClose();
	}
	void onClose() override
	{
		SockOracle s = o();
		if (!s.closeReq && !gFaulty)
		{
			if (targetFails(target))
				MC_CHECKF(s.connects == 0 && s.errors == 1, "%d connects and %d errors", s.connects, s.errors);
			else
				MC_CHECKF(act == A_RST ? s.connects + s.errors >= 1 : s.connects == 1 && s.errors == 0, "%d connects and %d errors", s.connects, s.errors);
			if (target == T_DNS_UNKNOWN || target == T_DNS_FAMILY)
				MC_CHECKF(s.connectErrors == 1, "no connect error");
		}
		if (!s.closeReq && gFaulty)
			MC_CHECKF(s.connects + s.errors >= 1, "is closed with neither a connect nor an error");
		gTotalConnects += s.connects;
		if (--lives > 0)
		{
			memset(&o(), 0, sizeof(SockOracle));
			o().closeReq = extCloses;
			++gLives;
			lifeOpen(tcp);
			start();
			return;
		}
		gAllClosed = 1;
	}
	LifeSocket* tcp = nullptr;
	int target = 0, act = 0;
	int port = 0;
	int delay = 0;
	int lives = 1;
	bool inTask = false, connectDone = false, extCloses = false;
};

// Serves the clients one by one.
struct Server { int l; int act; };
void serverThread(void* a)
{
	mc_k_plain(true);
	Server* s = (Server*)a;
	while (true)
	{
		int fd = accept(s->l, nullptr, nullptr);
		MC_CHECK(fd >= 0);
		if (gStopPeer)
		{
			close(fd);
			return;
		}
		if (s->act == A_RST)
			mc_k_reset(fd);
		else if (s->act == A_ECHO)
		{
			uint8_t b;
			if (recv(fd, &b, 1, 0) == 1)
			{
				MC_CHECKF(b == streamByte(1, 0), "a wrong byte is received by the peer");
				b = streamByte(0, 0);
				::send(fd, &b, 1, MSG_NOSIGNAL);
				recv(fd, &b, 1, 0);
			}
		}
		else if (s->act == A_CLOSE || s->act == A_SHUTDOWN || s->act == A_IDLE || s->act == A_SILENT)
		{
			uint8_t b;
			recv(fd, &b, 1, 0);
		}
		close(fd);
	}
}

LifeSub* gSub;
void doExt(int e)
{
	TCPSocketIFace* s = gSub->sock;
	switch (e)
	{
	case E_CLOSE: gS[0].closeReq = 1; s->PostClose(); break;
	case E_SHUTDOWN:
		gS[0].closeReq = 1;
		s->PostShutdown();
		if (gSub->act == A_SILENT)
			s->PostRecv(1);
		break;
	case E_DELETE: gS[0].closeReq = 1; s->Delete(); break;
	case E_WAKEUP: s->PostWakeup(); break;
	case E_SEND: s->PostSendCopy("", 0); break;
	case E_RECV: s->PostRecv(1); break;
	}
}
int gExts[2];
int gExtPause;
void extThread(void*)
{
	// In the middle of the connection delay.
	if (gExtPause > 0)
		mg::box::Sleep(gExtPause);
	doExt(gExts[1]);
}

sockaddr_in gLocal;

}

namespace {

struct Setup
{
	int workers = 1, target = T_OK, act = A_ECHO, lives = 1, delay = 0, faults = 0;
	bool inTask = false;
	int ext[2] = {E_NONE, E_NONE};
};

void lifeRun(const Setup& u, bool serial)
{
	memset(gS, 0, sizeof(gS));
	gAllClosed = gStopPeer = gTotalConnects = gLives = 0;
	for (int i = 0; i < 2; ++i)
		gExts[i] = u.ext[i];
	gExtPause = u.delay / 2;
	IOCore core;
	sockaddr_in addr;
	mc_serial_begin();
	Server srv{rawListen(addr), u.act};
	int pt = mc_spawn(serverThread, &srv, "server");
	core.Start(u.workers);
	mc_settle();
	mc_k_faults(u.faults);
	gFaulty = u.faults != 0;
	LifeSub* s = gSub = new LifeSub(0);
	LifeSocket* sock = new LifeSocket(core);
	s->sock = s->tcp = sock;
	s->target = u.target;
	s->act = u.act;
	s->port = ntohs(addr.sin_port);
	s->delay = u.delay;
	s->lives = u.lives;
	s->inTask = u.inTask;
	for (int i = 0; i < 2; ++i)
		s->extCloses = s->extCloses || (gExts[i] >= E_CLOSE && gExts[i] <= E_DELETE);
	lifeOpen(sock);
	if (!serial)
		mc_serial_end();
	s->start();
	int t = gExts[1] != E_NONE ? mc_spawn(extThread, nullptr, "external") : -1;
	if (gExts[0] != E_NONE)
		doExt(gExts[0]);
	if (t >= 0)
		mc_join(t);
	mc_wait_until(allClosed, nullptr);
	if (!serial)
		mc_serial_begin();
	mc_k_faults(0);
	if (gExts[0] != E_DELETE && gExts[1] != E_DELETE)
		sock->Delete();
	finishCore(core);
	gStopPeer = 1;
	mc_k_plain(true);
	int c = rawConnect(addr);
	mc_join(pt);
	mc_k_plain(false);
	close(c);
	close(srv.l);
	s->freeKeep();
	delete s;
	// The one from the finish, and the own one.
	mc_serial_end();
	mc_serial_end();
}

void lifePrepare()
{
	mc_serial_begin();
	memset(&gLocal, 0, sizeof(gLocal));
	gLocal.sin_family = AF_INET;
	gLocal.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	const sockaddr* one[] = {(sockaddr*)&gLocal};
	mc_k_dns("good.host", 0, 0, 0, 1, one);
	mc_k_dns("no.such", EAI_NONAME, 0, 0, 0, nullptr);
	mc_k_pump_on();
	mc_spawn(pumpThread, nullptr, "network");
	mc_serial_end();
}

}

// Any target, any behaviour, one or two interferers.
MC_SCENARIO(tcp_life)
{
	Setup u;
	u.workers = (int)mc_param("workers", 1);
	u.target = mc_param("target", -1) >= 0 ? (int)mc_param("target", 0) : mc_choose(T_COUNT);
	u.inTask = mc_choose(2);
	u.act = targetFails(u.target) ? A_ECHO : mc_choose(A_COUNT);
	u.lives = (int)mc_param("lives", 1);
	u.faults = (int)mc_param("faults", 0);
	{
		int d = (int)mc_param("delay", 0);
		u.delay = d > 1 || (d == 1 && mc_choose(2)) ? 10 : 0;
	}
	int nExt = (int)mc_param("ext", 1);
	for (int i = 0; i < nExt; ++i)
		u.ext[i] = mc_choose(E_COUNT);
	if (u.ext[0] != E_NONE && u.ext[1] != E_NONE && (u.ext[0] == E_DELETE || u.ext[1] == E_DELETE))
		mc_discard();
	if (u.target == T_WRAP && u.inTask)
		mc_discard();
	if (u.act == A_IDLE || u.act == A_SILENT)
	{
		// Somebody must finish it.
		int n = 0;
		for (int e : u.ext)
			n += e == E_CLOSE || e == E_DELETE || (e == E_SHUTDOWN && !u.inTask);
		if (n == 0 || u.lives > 1)
			mc_discard();
	}
	if (u.target == T_WRAP)
		u.delay = 0;
	lifePrepare();
	bool warm = mc_param("warm", 0);
	if (warm)
	{
		// Everything cached is created here.
		Setup w;
		w.target = T_DNS;
		lifeRun(w, true);
	}
	uint64_t blocks = mc_live_blocks();
	lifeRun(u, false);
	if (warm)
	{
		if (mc_live_blocks() != blocks)
			mc_dump_live();
		MC_CHECKF(mc_live_blocks() == blocks, "%d blocks of memory are leaked", (int)(mc_live_blocks() - blocks));
	}
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
	mc_outcome("t=%d a=%d c=%d e=%d,%d ev=%d", u.target, u.act, gTotalConnects, gS[0].errors, gS[0].lastErr, gS[0].events);
}
