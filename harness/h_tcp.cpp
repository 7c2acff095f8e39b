// TCPSocket: data integrity and progress.
#include "tcp_common.h"

namespace {

ORACLE int gWantIn, gWantOut;
bool allMoved(void*) { return gPeerGot[0] == gWantOut && gS[0].got == gWantIn && gS[0].sent == gWantOut; }

struct StreamSub : public TcpSub
{
	using TcpSub::TcpSub;
	void more(bool force)
	{
		if (o().got < inTotal && (force || o().recvReq <= o().got))
			recv(step, false);
	}
	void some()
	{
		int n = outTotal - o().toSend;
		if (n > step)
			n = step;
		if (n > 0)
			send(n, how, false);
	}
	void onConnect() override
	{
		switch (mode)
		{
		case 1: some(); some(); more(true); break; // everything from the callbacks, the receive from the receive
		case 2: some(); break;                     // a request, and the receive only when it is sent
		case 3: more(true); break;                 // sends on the receipts
		case 4: sock->PostWakeup(); break;         // on the wakeups
		case 5: more(true); sock->SetDeadline(mg::box::GetMilliseconds() + 10); break; // sends by the deadline
		default: break;
		}
	}
	void onSend(int) override
	{
		switch (mode)
		{
		case 1: some(); break;
		case 2: if (o().sent < outTotal) some(); else more(true); break;
		case 4: sock->PostWakeup(); break;
		case 5: some(); break;
		default: break;
		}
	}
	void onRecv(BufferReadStream& st) override
	{
		// Not everything can be taken right away.
		int n = (int)st.GetReadSize();
		if (lazy && n > 1 && o().got + n < inTotal)
			--n;
		take(st, n);
		if (mode == 3)
		{
			do
				some();
			while (o().got == inTotal && o().toSend < outTotal);
		}
		if (mode != 0 || !postRecv)
			recvMore();
	}
	void recvMore()
	{
		if (o().got < inTotal)
			recv(step, mode == 0);
	}
	void onEvent() override
	{
		if (mode == 4 && o().connects > 0)
		{
			some();
			if (!recvStarted)
			{
				recvStarted = true;
				more(true);
			}
		}
		if (mode == 5 && o().connects > 0 && sock->IsExpired())
			some();
	}
	int mode = 0;
	int inTotal = 0, outTotal = 0, step = 2, how = 0;
	bool lazy = false, postRecv = false, recvStarted = false;
};

struct Ext { StreamSub* s; int sends; int step; int how; };
void extSend(void* a)
{
	Ext* e = (Ext*)a;
	for (int i = 0; i < e->sends; ++i)
		e->s->send(e->step, e->how, true);
}
void extRecv(void* a)
{
	Ext* e = (Ext*)a;
	e->s->recv(1, true);
	e->s->recv(1, true);
}

}

// All what is given for sending comes to the peer once and in order, and back, and nothing gets stuck.
MC_SCENARIO(tcp_stream)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 1));
	int mode = mc_param("mode", -1) >= 0 ? (int)mc_param("mode", 0) : mc_param("mode", -1) < -1 ? 1 + mc_choose(5) : mc_choose(6);
	int how = mc_param("how", -1) >= 0 ? (int)mc_param("how", 0) : mc_choose(4);
	int size = (int)mc_param("size", 4);
	int first = mc_choose(2);
	// Nobody should wait for each other by design.
	int cap = (int)mc_param("cap", 3);
	if (mode == 2 && first == 0)
		cap = size;
	if (mode == 3)
		first = 0;
	mc_k_capacity(cap);
	uint64_t blocks;
	{
		IOCore core;
		int fd, pfd;
		mc_serial_begin();
		rawPair(fd, pfd);
		core.Start(workers);
		mc_settle();
		if (mc_param("faults", 0) || mc_param("pump", 0))
		{
			mc_k_pump_on();
			mc_spawn(pumpThread, nullptr, "network");
		}
		mc_k_faults((int)mc_param("faults", 0));
		Peer p{pfd, size, (int)mc_param("chunk", 3), size, first};
		StreamSub* s = new StreamSub(0);
		TCPSocket* sock = new TCPSocket(core);
		s->sock = sock;
		s->mode = mode;
		s->how = how;
		s->inTotal = s->outTotal = size;
		s->lazy = how & 1;
		gWantIn = gWantOut = size;
		mc_serial_end();
		sock->Open(mg::aio::TCPSocketParams());
		int pt = mc_spawn(peerThread0, &p, "peer");
		if (mode == 0)
		{
			// From external threads, also before the socket is in work.
			s->postRecv = false;
			if (how & 1)
				s->recv(1, true);
			sock->PostWrap(fd, s);
			Ext e{s, 1, size - 1, how};
			int t1 = mc_spawn(extSend, &e, "sender");
			if (!(how & 1))
				s->recv(2, true);
			mc_join(t1);
			s->send(1, 0, true);
		}
		else
			sock->PostWrap(fd, s);
		mc_wait_until(allMoved, nullptr);
		mc_join(pt);
		MC_CHECK(gPeerErr[0] == 0 && gPeerEof[0] == 0);
		mc_serial_begin();
		gS[0].closeReq = 1;
		sock->Delete();
		mc_wait_until(closed0, nullptr);
		finishCore(core);
		MC_CHECKF(gS[0].errors == 0, "an error %d", gS[0].lastErr);
		close(pfd);
		s->freeKeep();
		MC_CHECK(s->data > 0);
		delete s;
		mc_outcome("m=%d h=%d e=%d", mode, how, gS[0].events);
	}
	(void)blocks;
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}

namespace {

// Two sockets in one core, the second answers to the first with its own stream.
struct PairSub : public TcpSub
{
	using TcpSub::TcpSub;
	void step()
	{
		int n = total - o().toSend;
		if (n > 2)
			n = 2;
		if (n > 0)
			send(n, o().toSend & 1 ? 1 : 0, false);
	}
	void onConnect() override
	{
		recv(1, false);
		if (id == 0)
			step();
	}
	void onRecv(BufferReadStream& st) override
	{
		take(st, (int)st.GetReadSize());
		if (id == 0 || o().got == total)
		{
			do
				step();
			while (o().got == total && o().toSend < total);
		}
		else
			step();
		// One more to get the end of the stream.
		if (o().got < total || closer == 1 - id)
			recv(1, false);
		if (o().got == total && o().sent == total && o().toSend == total)
			finish();
	}
	void onSend(int) override
	{
		if (o().got == total && o().sent == total)
			finish();
	}
	void finish()
	{
		if (closer == id)
		{
			o().closeReq = 1;
			if (shut)
			{
				sock->PostShutdown();
				// To notice when the peer is closed.
				recv(1, false);
			}
			else
				sock->PostClose();
		}
	}
	int total = 0;
	int closer = 0;
	bool shut = false;
};
bool pairMoved(void*) { return gS[0].got == gWantIn && gS[1].got == gWantIn && gS[0].sent == gWantIn && gS[1].sent == gWantIn; }

}

MC_SCENARIO(tcp_pair)
{
	int workers = (int)mc_param("workers", 2);
	int total = (int)mc_param("size", 3);
	int closer = mc_choose(3);
	bool shut = closer < 2 && mc_choose(2);
	mc_k_capacity(mc_param("cap", 2));
	{
		IOCore core;
		int fds[2];
		mc_serial_begin();
		rawPair(fds[0], fds[1]);
		MC_CHECK(fcntl(fds[1], F_SETFL, O_NONBLOCK) == 0);
		core.Start(workers);
		mc_settle();
		PairSub* s[2];
		TCPSocket* sock[2];
		for (int i = 0; i < 2; ++i)
		{
			s[i] = new PairSub(i);
			sock[i] = new TCPSocket(core);
			s[i]->sock = sock[i];
			s[i]->total = total;
			s[i]->inStream = 1 - i;
			s[i]->outStream = i;
			s[i]->closer = closer;
			s[i]->shut = shut;
			sock[i]->Open(mg::aio::TCPSocketParams());
		}
		gWantIn = total;
		mc_serial_end();
		sock[0]->PostWrap(fds[0], s[0]);
		sock[1]->PostWrap(fds[1], s[1]);
		if (closer < 2)
		{
			mc_wait_until(closedBoth, nullptr);
			// The closing socket takes everything before the closure. The other one might be not told about its last bytes.
			MC_CHECK(gS[closer].got == total && gS[closer].sent == total);
			MC_CHECK(gS[1 - closer].got <= total);
		}
		else
			mc_wait_until(pairMoved, nullptr);
		mc_serial_begin();
		gS[0].closeReq = gS[1].closeReq = 1;
		sock[0]->Delete();
		sock[1]->Delete();
		mc_wait_until(closedBoth, nullptr);
		finishCore(core);
		MC_CHECK(closer < 2 || gS[0].errors + gS[1].errors == 0);
		for (int i = 0; i < 2; ++i)
		{
			s[i]->freeKeep();
			MC_CHECK(s[i]->data > 0);
			delete s[i];
		}
		mc_outcome("c=%d e=%d,%d ev=%d,%d", closer, gS[0].errors, gS[1].errors, gS[0].events, gS[1].events);
	}
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}
