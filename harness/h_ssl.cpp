// SSLSocket over a fake cipher: handshake, integrity, progress, encryption on the fly, errors.
#include "tcp_common.h"
#include "fake_ssl.h"
#include "mg/aio/SSLSocket.h"

using mg::aio::SSLSocket;
using mg::aio::SSLSocketParams;

namespace mg {
namespace net {
	mg::box::ErrorPtrRaised ErrorRaiseSSL(uint32_t, const char*) { return mg::box::ErrorRaise(mg::box::ERR_NET_PROTOCOL, "ssl"); }
}
}

namespace {

// The client sends a request, the server answers, both in steps.
struct SslSub : public TcpSub
{
	using TcpSub::TcpSub;
	void step()
	{
		int n = total - o().toSend;
		if (n > chunk)
			n = chunk;
		if (n > 0)
			send(n, how, false);
	}
	void onConnect() override
	{
		switch (mode)
		{
		case 0: recv(recvSize, false); step(); break;      // both at once
		case 1: step(); if (id == 1) recv(recvSize, false); break; // the client receives when everything is sent
		case 2: recv(recvSize, false); if (id == 0) step(); break; // the server answers
		case 3: sock->PostWakeup(); break; // everything later
		}
	}
	void onSend(int) override
	{
		if (mode == 2 && id == 1)
			return;
		step();
		if (mode == 1 && id == 0 && o().sent == total && o().recvReq == 0)
			recv(recvSize, false);
	}
	void onRecv(BufferReadStream& st) override
	{
		MC_CHECKF(o().recvReq > recvSeen, "socket %d: data is given without a request", id);
		recvSeen = o().recvReq;
		take(st, (int)st.GetReadSize());
		if (mode == 2 && id == 1)
		{
			do
				step();
			while (o().got == total && o().toSend < total);
		}
		if (pause && o().got < total)
		{
			// Everything is processed later.
			wantRecv = true;
			sock->PostWakeup();
			return;
		}
		if (o().got < total)
			recv(recvSize, false);
	}
	void onEvent() override
	{
		if (mode == 3 && o().connects > 0 && o().recvReq == 0)
		{
			recv(recvSize, false);
			step();
		}
		if (wantRecv)
		{
			// One empty execution in between.
			wantRecv = false;
			wantRecv2 = true;
			sock->PostWakeup();
		}
		else if (wantRecv2)
		{
			wantRecv2 = false;
			recv(recvSize, false);
		}
	}
	int mode = 0, total = 0, chunk = 2, how = 0, recvSize = 1;
	int recvSeen = 0;
	bool pause = false, wantRecv = false, wantRecv2 = false;
};

ORACLE int gTotal;
bool sslMoved(void*) { return gS[0].got == gTotal && gS[1].got == gTotal && gS[0].sent == gTotal && gS[1].sent == gTotal; }

struct SslPair
{
	IOCore* core;
	SslSub* s[2];
	SSLSocket* sock[2];
	int fds[2];
	void make(IOCore& c, bool encrypt)
	{
		core = &c;
		rawPair(fds[0], fds[1]);
		MC_CHECK(fcntl(fds[1], F_SETFL, O_NONBLOCK) == 0);
		for (int i = 0; i < 2; ++i)
		{
			s[i] = new SslSub(i);
			sock[i] = new SSLSocket(c);
			s[i]->sock = sock[i];
			s[i]->inStream = 1 - i;
			s[i]->outStream = i;
			SSLSocketParams p;
			p.mySSL = (mg::net::SSLContext*)(uintptr_t)i;
			p.myDoEncrypt = encrypt;
			sock[i]->Open(p);
		}
	}
	void start()
	{
		sock[0]->PostWrap(fds[0], s[0]);
		sock[1]->PostWrap(fds[1], s[1]);
	}
	void finish()
	{
		gS[0].closeReq = gS[1].closeReq = 1;
		sock[0]->Delete();
		sock[1]->Delete();
		mc_wait_until(closedBoth, nullptr);
		finishCore(*core);
		for (int i = 0; i < 2; ++i)
		{
			s[i]->freeKeep();
			MC_CHECK(s[i]->data > 0);
			delete s[i];
		}
	}
};

}

MC_SCENARIO(ssl_pair)
{
	int workers = (int)mc_param("workers", 1);
	int total = (int)mc_param("size", 3);
	int mode = mc_choose(4);
	int recvSize = mc_choose(2) ? 8 : 1;
	int pause = mc_choose(2);
	int encrypt = mc_choose(2);
	int how = (int)mc_param("how", 0);
	mc_k_capacity(mc_param("cap", 16));
	{
		IOCore core;
		mc_serial_begin();
		SslPair p;
		p.make(core, encrypt);
		core.Start(workers);
		mc_settle();
		if (mc_param("faults", 0) || mc_param("pump", 0))
		{
			mc_k_pump_on();
			mc_spawn(pumpThread, nullptr, "network");
		}
		mc_k_faults((int)mc_param("faults", 0));
		for (int i = 0; i < 2; ++i)
		{
			p.s[i]->mode = mode;
			p.s[i]->total = total;
			p.s[i]->recvSize = recvSize;
			p.s[i]->pause = pause;
			p.s[i]->how = how;
			p.s[i]->chunk = (int)mc_param("chunk", 2);
		}
		gTotal = total;
		mc_serial_end();
		p.start();
		mc_wait_until(sslMoved, nullptr);
		mc_serial_begin();
		mc_k_faults(0);
		MC_CHECKF(gS[0].errors + gS[1].errors == 0, "an error");
		p.finish();
		mc_outcome("m=%d r=%d p=%d e=%d ev=%d,%d", mode, recvSize, pause, encrypt, gS[0].events, gS[1].events);
	}
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}

namespace {

inline int fakeCipher(uint8_t* out, const uint8_t* in, int n)
{
	int k = 0;
	while (n > 0)
	{
		int m = n < 3 ? n : 3;
		out[k++] = (uint8_t)(0x80 + m);
		for (int i = 0; i < m; ++i)
			out[k++] = in[i] ^ 0x5a;
		in += m;
		n -= m;
	}
	return k;
}
inline void rawSendAll(int fd, const void* d, int n)
{
	while (n > 0)
	{
		ssize_t rc = ::send(fd, d, n, MSG_NOSIGNAL);
		MC_CHECKF(rc > 0, "the peer can't send");
		d = (const char*)d + rc;
		n -= (int)rc;
	}
}
inline int rawByte(int fd)
{
	uint8_t b;
	ssize_t rc = ::recv(fd, &b, 1, 0);
	return rc == 1 ? b : -1;
}

// Encryption in the middle of the stream.
struct FlySub : public TcpSub
{
	using TcpSub::TcpSub;
	void encrypt()
	{
		// The rest of the plain data.
		if (o().toSend < plain)
			send(plain - o().toSend, how, false);
		((SSLSocket*)sock)->Encrypt();
		done = true;
		if (secret > 0)
			send(secret, how, false);
		if (lateRecv == 0)
			recv(8, false);
	}
	void onConnect() override
	{
		if (moment == 2)
			recv(1, false);
		if (first > 0)
			send(first, how, false);
		if (moment == 0)
			encrypt();
		if (moment == 3)
			sock->PostWakeup();
	}
	void onEvent() override
	{
		if (moment == 3 && o().connects > 0 && !done)
			encrypt();
	}
	void onSend(int) override
	{
		if (moment == 1 && !done)
			encrypt();
		else if (done && lateRecv == 1 && o().sent == plain + secret)
		{
			lateRecv = 0;
			recv(8, false);
		}
	}
	void onRecv(BufferReadStream& st) override
	{
		take(st, (int)st.GetReadSize());
		if (moment == 2 && !done)
			encrypt();
		else if (o().got < gTotal)
			recv(8, false);
	}
	int moment = 0, plain = 0, secret = 0, first = 0, how = 0, lateRecv = 0;
	bool done = false;
};

struct FlyPeer
{
	int fd, plain, secret, reply, plainReply;
	bool together;
};
ORACLE int gFlyDone;
void flyPeer(void* a)
{
	FlyPeer* p = (FlyPeer*)a;
	mc_k_plain(true);
	for (int i = 0; i < p->plain; ++i)
	{
		int b = rawByte(p->fd);
		MC_CHECKF(b == streamByte(0, i), "plain byte %d is %d", i, b);
		if (i == 0 && p->plainReply)
		{
			uint8_t r = streamByte(1, 0);
			rawSendAll(p->fd, &r, 1);
		}
	}
	int b = rawByte(p->fd);
	MC_CHECKF(b == 'C', "the handshake starts with %d", b);
	b = rawByte(p->fd);
	MC_CHECKF(b == 'c', "the handshake continues with %d", b);
	uint8_t plain[8], out[16];
	for (int i = 0; i < p->reply; ++i)
		plain[i] = streamByte(1, p->plainReply + i);
	memcpy(out, "Sss", 3);
	int n = fakeCipher(out + 3, plain, p->reply);
	if (p->together)
		rawSendAll(p->fd, out, 3 + n);
	else
		rawSendAll(p->fd, out, 3);
	b = rawByte(p->fd);
	MC_CHECKF(b == 'F', "the handshake is finished with %d", b);
	if (!p->together)
		rawSendAll(p->fd, out + 3, n);
	for (int got = 0; got < p->secret;)
	{
		int len = rawByte(p->fd) - 0x80;
		MC_CHECKF(len >= 1 && len <= 3, "encrypted length %d", len);
		for (int i = 0; i < len; ++i, ++got)
		{
			b = rawByte(p->fd) ^ 0x5a;
			MC_CHECKF(got < p->secret && b == streamByte(0, p->plain + got), "encrypted byte %d is %d", got, b);
		}
	}
	gFlyDone = 1;
	MC_CHECKF(rawByte(p->fd) == -1, "excess data");
	close(p->fd);
}
ORACLE int gFlySend;
bool flyMoved(void*) { return gFlyDone && gS[0].got == gTotal && gS[0].sent == gFlySend; }

}

// Encryption is enabled by the client in the middle of its stream: everything before is plain, everything after is
// encrypted, each byte is delivered and reported once.
MC_SCENARIO(ssl_fly)
{
	int workers = (int)mc_param("workers", 1);
	FlySub* s = new FlySub(0);
	s->inStream = 1;
	s->outStream = 0;
	s->moment = mc_choose(4);
	s->plain = mc_choose(3) * 4;
	s->secret = mc_choose(2) * 5;
	s->how = (int)mc_param("how", -1) >= 0 ? (int)mc_param("how", 0) : mc_choose(2);
	s->lateRecv = mc_choose(2);
	if ((s->moment == 1 || s->moment == 2) && s->plain == 0)
		mc_discard();
	if (s->lateRecv && s->secret == 0)
		mc_discard();
	if (s->moment == 1 || s->moment == 2)
		s->first = mc_choose(2) ? 1 : s->plain;
	else
		s->first = s->plain == 0 ? 0 : s->plain - 2;
	mc_k_capacity(mc_param("cap", 4));
	{
		IOCore core;
		mc_serial_begin();
		FlyPeer p;
		int fd;
		rawPair(fd, p.fd);
		p.plain = s->plain;
		p.secret = s->secret;
		p.reply = 2;
		p.plainReply = s->moment == 2;
		p.together = mc_choose(2);
		gTotal = p.reply + p.plainReply;
		gFlySend = p.plain + p.secret;
		SSLSocket* sock = new SSLSocket(core);
		s->sock = sock;
		SSLSocketParams par;
		par.myDoEncrypt = false;
		sock->Open(par);
		core.Start(workers);
		mc_settle();
		int t = mc_spawn(flyPeer, &p, "peer");
		if (mc_param("faults", 0) || mc_param("pump", 0))
		{
			mc_k_pump_on();
			mc_spawn(pumpThread, nullptr, "network");
		}
		mc_k_faults((int)mc_param("faults", 0));
		mc_serial_end();
		sock->PostWrap(fd, s);
		mc_wait_until(flyMoved, nullptr);
		mc_serial_begin();
		mc_k_faults(0);
		MC_CHECKF(gS[0].errors == 0, "an error");
		gS[0].closeReq = 1;
		sock->Delete();
		mc_join(t);
		finishCore(core);
		s->freeKeep();
		mc_outcome("m=%d p=%d s=%d ev=%d", s->moment, s->plain, s->secret, gS[0].events);
		delete s;
	}
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}

namespace {

enum { P_ALL, P_CORRUPT, P_FIN, P_RST };
struct CutPeer
{
	int fd, role, at, what, split, pause, bytes;
};
void cutPeer(void* a)
{
	CutPeer* p = (CutPeer*)a;
	mc_k_plain(true);
	uint8_t plain[2], out[16];
	plain[0] = streamByte(1, 0);
	plain[1] = streamByte(1, 1);
	memcpy(out, p->role == 0 ? "Sss" : "CcF", 3);
	int n = 3 + fakeCipher(out + 3, plain, p->bytes);
	if (p->what == P_CORRUPT)
		out[p->at] ^= 0x7f;
	else if (p->what != P_ALL)
		n = p->at;
	int pos = 0;
	while (pos < n)
	{
		int k = pos < p->split && p->split < n ? p->split - pos : n - pos;
		if (::send(p->fd, out + pos, k, MSG_NOSIGNAL) != k)
			break;
		pos += k;
		// Let the socket handle the first part separately.
		if (pos < n && p->pause)
			mg::box::Sleep(1);
	}
	if (p->what == P_FIN)
		shutdown(p->fd, SHUT_WR);
	if (p->what != P_RST)
		while (rawByte(p->fd) >= 0) {}
	else
		mc_k_reset(p->fd);
	close(p->fd);
}
struct CutSub : public TcpSub
{
	using TcpSub::TcpSub;
	void onConnect() override
	{
		send(2, 0, false);
		recv(1, false);
	}
	void onRecv(BufferReadStream& st) override
	{
		take(st, (int)st.GetReadSize());
		recv(1, false);
	}
};
CutSub* gCut;
ORACLE int gCutAct;
void cutAct(void*)
{
	TCPSocketIFace* s = gCut->sock;
	if (gCutAct == 1 || gCutAct == 3)
	{
		gS[0].closeReq = 1;
		s->PostClose();
	}
	else if (gCutAct == 2)
	{
		gS[0].closeReq = 1;
		s->PostShutdown();
	}
	else
	{
		s->PostWakeup();
	}
}
ORACLE int gCutBytes;
bool cutGot(void*) { return (gS[0].got == gCutBytes && gS[0].sent == 2) || gS[0].closes > 0; }
bool cutClosed(void*) { return gS[0].closes > 0; }

}

// The peer disappears, resets the connection or sends garbage at each byte, while the socket is being closed.
MC_SCENARIO(ssl_cut)
{
	int workers = (int)mc_param("workers", 1);
	CutPeer p;
	p.what = mc_param("what", -1) >= 0 ? (int)mc_param("what", 0) : mc_choose(4);
	p.role = mc_choose(2);
	p.at = mc_param("at", -1) >= 0 ? (int)mc_param("at", 0) : p.what == P_ALL ? 0 : p.what == P_CORRUPT ? mc_choose(4) : mc_choose(6);
	p.split = (int)mc_param("split", -1) >= 0 ? (int)mc_param("split", 0) : mc_choose(5);
	p.pause = p.split > 0 && p.split < 4 ? mc_choose(2) : 0;
	p.bytes = gCutBytes = p.at < 5 ? 2 - mc_choose(2) : 2;
	gCutAct = mc_param("act", -1) >= 0 ? (int)mc_param("act", 0) : mc_choose(4);
	CutSub* s = gCut = new CutSub(0);
	s->inStream = 1;
	s->outStream = 0;
	{
		IOCore core;
		mc_serial_begin();
		int fd;
		rawPair(fd, p.fd);
		SSLSocket* sock = new SSLSocket(core);
		s->sock = sock;
		SSLSocketParams par;
		par.mySSL = (mg::net::SSLContext*)(uintptr_t)p.role;
		sock->Open(par);
		core.Start(workers);
		mc_settle();
		int t = mc_spawn(cutPeer, &p, "peer");
		mc_k_faults((int)mc_param("faults", 0));
		mc_serial_end();
		sock->PostWrap(fd, s);
		int t2 = gCutAct != 3 ? mc_spawn(cutAct, nullptr, "external") : -1;
		if (gCutAct == 3)
			cutAct(nullptr);
		if (t2 >= 0)
			mc_join(t2);
		if (p.what == P_ALL && gCutAct == 0)
		{
			mc_wait_until(cutGot, nullptr);
			gS[0].closeReq = 1;
			sock->PostClose();
		}
		mc_wait_until(cutClosed, nullptr);
		mc_serial_begin();
		SockOracle& o = gS[0];
		MC_CHECKF(o.closes == 1 && o.got <= gCutBytes, "closed %d times", o.closes);
		MC_CHECKF(o.sendErrors + o.recvErrors <= 2 && o.sendErrors + o.recvErrors + o.errors <= 3, "too many errors");
		if ((p.what == P_CORRUPT || p.what == P_FIN) && p.at < 3)
			MC_CHECKF(o.connects == 0, "connected without a handshake");
		if (p.what == P_RST && p.at < 3)
			MC_CHECKF(o.connects == 0, "connected without a handshake");
		if (!o.closeReq && !mc_param("faults", 0))
		{
			if (p.what == P_CORRUPT)
				MC_CHECKF(o.errors == 1 && o.got == 0, "%d errors and %d bytes from a corrupted stream", o.errors, o.got);
			if (p.what == P_FIN)
				MC_CHECKF(o.errors == 0, "an error of a normal closure");
			if (p.what == P_FIN && p.at >= 3)
				MC_CHECKF(o.connects == 1, "not connected after the handshake");
			if (p.what == P_RST)
				MC_CHECKF(o.errors <= 1, "%d errors", o.errors);
		}
		sock->Delete();
		mc_join(t);
		finishCore(core);
		s->freeKeep();
		mc_outcome("w=%d r=%d at=%d a=%d c=%d e=%d g=%d", p.what, p.role, p.at, gCutAct, gS[0].connects, gS[0].errors, gS[0].got);
		delete s;
	}
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}

namespace {

// A socket of any kind living twice.
ORACLE int gRoLife;       // the current life
ORACLE int gRoClosed;     // closures
ORACLE int gRoConnects[2];
ORACLE int gRoGot[2];
ORACLE int gRoSent[2];
ORACLE int gRoAllowed[2]; // bytes given for sending
ORACLE int gRoReq[2];     // receipts requested
ORACLE int gRoPeerGot;
struct RoSub : public TCPSocketSubscription
{
	void life()
	{
		int i = gRoLife;
		if (kind == 0)
		{
			((TCPSocket*)sock)->Open(mg::aio::TCPSocketParams());
		}
		else
		{
			SSLSocketParams p;
			p.myDoEncrypt = kind == 2;
			((SSLSocket*)sock)->Open(p);
		}
		if (i == 1 && late == 2)
			use(2, 1);
		sock->PostWrap(fds[i], this);
	}
	void use(int n, int r)
	{
		int i = gRoLife;
		uint8_t b[16];
		for (int k = 0; k < n; ++k)
			b[k] = (uint8_t)(1 + i * 100 + gRoAllowed[i] + k);
		gRoAllowed[i] += n;
		if (n > 0)
			sock->PostSendCopy(b, n);
		gRoReq[i] += r;
		if (r > 0)
			sock->PostRecv(r);
	}
	void OnConnect() override
	{
		int i = gRoLife;
		MC_CHECKF(++gRoConnects[i] == 1, "life %d: connected twice", i);
		if (i == 0 && inside)
			use(n1, r1);
		if (i == 0 && closer == 1)
			sock->PostClose();
	}
	void OnSend(uint32_t n) override
	{
		int i = gRoLife;
		MC_CHECKF(gRoConnects[i] == 1, "life %d: data is sent before the connect", i);
		gRoSent[i] += (int)n;
		MC_CHECKF(gRoSent[i] <= gRoAllowed[i], "life %d: %d bytes are sent, %d were given", i, gRoSent[i], gRoAllowed[i]);
	}
	void OnRecv(BufferReadStream& st) override
	{
		int i = gRoLife;
		MC_CHECKF(gRoConnects[i] == 1, "life %d: data is received before the connect", i);
		MC_CHECKF(gRoReq[i] > 0, "life %d: data is given without a request", i);
		while (st.GetReadSize() > 0)
		{
			uint8_t b;
			st.ReadData(&b, 1);
			MC_CHECKF(b == 201 + i * 20 + gRoGot[i], "life %d: received byte %d is %d", i, gRoGot[i], b);
			++gRoGot[i];
		}
	}
	void OnError(Error*) override
	{
		MC_CHECKF(gRoLife == 0 && reset, "an error");
	}
	void OnClose() override
	{
		++gRoClosed;
		if (gRoLife == 0)
		{
			if (late == 1)
			{
				// Nobody needs that anymore.
				mc_serial_begin();
				uint64_t live = mc_live_blocks();
				mg::net::BufferLink* link = new mg::net::BufferLink(mg::net::BuffersRef("ab", 2));
				link->myNext = new mg::net::BufferLink(mg::net::BuffersRef("cd", 2));
				sock->PostSendMove(link);
				sock->PostSendRef("ef", 2);
				sock->PostRecv(8);
				sock->PostWakeup();
				MC_CHECKF(mc_live_blocks() == live, "data sent to a closed socket is leaked");
				mc_serial_end();
			}
			gRoLife = 1;
			life();
		}
		// For the second life already.
		if (gRoClosed == 1 && late == 3)
			use(2, 1);
	}
	int kind, n1, r1, closer, inside, reset, late, fds[2];
	TCPSocketIFace* sock;
};

struct RoPeer { int fd, kind, life, bytes, what; };
void roPeer(void* a)
{
	RoPeer* p = (RoPeer*)a;
	mc_k_plain(true);
	uint8_t plain[4], out[16];
	for (int i = 0; i < p->bytes; ++i)
		plain[i] = (uint8_t)(201 + p->life * 20 + i);
	int n = 0;
	if (p->kind == 2)
	{
		memcpy(out, "Sss", 3);
		n = 3 + fakeCipher(out + 3, plain, p->bytes);
	}
	else
	{
		memcpy(out, plain, p->bytes);
		n = p->bytes;
	}
	if (p->life == 0)
	{
		// Writes and does not read.
		if (p->what != 1)
			::send(p->fd, out, n, MSG_NOSIGNAL);
		if (p->what == 2)
			mc_k_reset(p->fd);
		return;
	}
	rawSendAll(p->fd, out, n);
	if (p->kind == 2)
	{
		MC_CHECKF(rawByte(p->fd) == 'C' && rawByte(p->fd) == 'c' && rawByte(p->fd) == 'F', "a wrong handshake of the second life");
	}
	while (true)
	{
		int b = rawByte(p->fd);
		if (b < 0)
			break;
		int len = 1;
		if (p->kind == 2)
		{
			len = b - 0x80;
			MC_CHECKF(len >= 1 && len <= 3, "encrypted length %d", len);
		}
		for (int i = 0; i < len; ++i)
		{
			if (p->kind == 2)
				b = rawByte(p->fd) ^ 0x5a;
			MC_CHECKF(b == 101 + gRoPeerGot, "byte %d of the second life is %d", gRoPeerGot, b);
			++gRoPeerGot;
		}
	}
	close(p->fd);
}
bool roSecond(void*) { return gRoConnects[1] > 0; }
bool roMoved(void*) { return gRoGot[1] == 1 && gRoSent[1] == 2 && gRoPeerGot == 2; }
bool roClosed(void*) { return gRoClosed == 2; }

}

// A socket is opened again from its closing callback. Nothing of the first life - unsent data, requests, received data,
// encryption - gets into the second one.
MC_SCENARIO(sock_reopen)
{
	int workers = (int)mc_param("workers", 1);
	RoSub* s = new RoSub();
	s->kind = (int)mc_param("kind", 0);
	s->n1 = mc_choose(3) * 4;
	s->r1 = mc_choose(2) * 8;
	s->closer = mc_choose(2); // main, the callback
	s->inside = s->closer == 0 ? mc_choose(2) : 1;
	// What the closing callback does: nothing, uses the closed socket, uses the opened one before and after its start.
	s->late = mc_param("late", -1) >= 0 ? (int)mc_param("late", 0) : mc_choose(4);
	mc_k_capacity(mc_param("cap", 4));
	{
		IOCore core;
		mc_serial_begin();
		RoPeer p[2];
		for (int i = 0; i < 2; ++i)
		{
			rawPair(s->fds[i], p[i].fd);
			p[i].kind = s->kind;
			p[i].life = i;
		}
		p[0].bytes = mc_choose(3);
		p[0].what = mc_choose(3); // keep, silent, reset
		s->reset = p[0].what == 2;
		// Main could close the second life, and nothing would close the first one.
		if ((s->reset && s->closer == 0) || (s->kind == 2 && s->closer == 1 && p[0].what == 1))
			mc_discard();
		p[1].bytes = 1;
		p[1].what = 0;
		if (s->kind == 0)
			s->sock = new TCPSocket(core);
		else
			s->sock = new SSLSocket(core);
		core.Start(workers);
		mc_settle();
		if (mc_param("faults", 0) || mc_param("pump", 0))
		{
			mc_k_pump_on();
			mc_spawn(pumpThread, nullptr, "network");
		}
		mc_k_faults((int)mc_param("faults", 0));
		int t1 = mc_spawn(roPeer, &p[1], "peer2");
		mc_serial_end();
		int t0 = mc_spawn(roPeer, &p[0], "peer1");
		s->life();
		if (!s->inside)
			s->use(s->n1, s->r1);
		if (s->closer == 0)
			s->sock->PostClose();
		mc_wait_until(roSecond, nullptr);
		mc_serial_begin();
		mc_settle();
		if (s->late < 2)
		{
			MC_CHECKF(gRoGot[1] == 0 && gRoSent[1] == 0, "something happens without a request");
			s->use(2, 1);
		}
		mc_wait_until(roMoved, nullptr);
		s->sock->Delete();
		mc_wait_until(roClosed, nullptr);
		mc_join(t0);
		mc_join(t1);
		close(p[0].fd);
		MC_CHECKF(gRoPeerGot == 2, "excess data");
		finishCore(core);
		mc_outcome("n=%d r=%d c=%d in=%d b=%d: %d,%d,%d", s->n1, s->r1, s->closer, s->inside, p[0].bytes, gRoConnects[0], gRoSent[0], gRoGot[0]);
		delete s;
	}
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}
