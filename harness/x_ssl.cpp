// SSLStream and SSLContext with the real OpenSSL: all sequences of operations of two ends, all cuts of the traffic, tampering.
#define XPLORE_MAIN
#include "xplore.h"
#include "ssl_certs.h"

#include "mg/box/Log.h"
#include "mg/net/SSLContext.h"
#include "mg/net/SSLStream.h"

#include <algorithm>
#include <memory>
#include <openssl/rand.h>
#include <openssl/err.h>
#include <openssl/pem.h>

namespace mg {
namespace box {
void LogV(LogLevel, const char*, int, const char*, const char*, va_list) {}
}
}

using namespace mg::net;

// Reproducible executions: the sizes of signatures depend on the random numbers.
static uint64_t theRand;
static int randBytes(unsigned char* b, int n)
{
	for (int i = 0; i < n; ++i)
	{
		theRand = theRand * 6364136223846793005ull + 1442695040888963407ull;
		b[i] = theRand >> 33;
	}
	return 1;
}
static int randStatus() { return 1; }

static void randInit()
{
	static RAND_METHOD m = {nullptr, randBytes, nullptr, nullptr, randBytes, randStatus};
	static bool once = false;
	if (!once)
	{
		once = true;
		RAND_set_rand_method(&m);
	}
	theRand = 1;
	ERR_clear_error();
}

// Application bytes: any 8 consecutive ones are specific for the side and the position.
static uint8_t appByte(int side, uint64_t pos)
{
	uint64_t x = (pos / 8 + 1) * 0x9e3779b97f4a7c15ull + side * 0xc2b2ae3d27d4eb4full;
	x ^= x >> 31;
	return x >> (8 * (pos % 8));
}
static std::string appData(int side, uint64_t pos, uint64_t n)
{
	std::string s(n, 0);
	for (uint64_t i = 0; i < n; ++i) s[i] = appByte(side, pos + i);
	return s;
}

static std::string listToStr(const Buffer* b)
{
	std::string s;
	for (; b != nullptr; b = b->myNext.GetPointer())
	{
		REQ(b->myPos <= b->myCapacity, "a buffer is overfilled");
		s.append((const char*)b->myRData, b->myPos);
	}
	return s;
}

static Buffer::Ptr strToList(const std::string& s)
{
	// Two buffers, the first one with a single byte, to have borders of buffers inside of records.
	Buffer::Ptr h = BufferCopy::NewShared();
	h->myPos = 1;
	h->myWData[0] = s[0];
	Buffer* t = h.GetPointer();
	for (uint64_t i = 1; i < s.size();)
	{
		Buffer::Ptr n = BufferCopy::NewShared();
		uint64_t k = s.size() - i < n->myCapacity ? s.size() - i : n->myCapacity;
		memcpy(n->myWData, s.data() + i, k);
		n->myPos = k;
		i += k;
		t->myNext = std::move(n);
		t = t->myNext.GetPointer();
	}
	return h;
}

struct Pair
{
	SSLContext::Ptr ctx[2];
	std::unique_ptr<SSLStream> st[2];
	std::string wire[2]; // From i to the other one, taken from i and not delivered yet.
	uint64_t wirePlain[2] = {0, 0}; // The leading bytes of the wire which are not encrypted.
	uint64_t inPlain[2] = {0, 0}; // Not encrypted bytes inside of the input of i, not read yet.
	uint64_t sent[2] = {0, 0}; // Application bytes written by i.
	uint64_t plain[2] = {0, 0}; // How many of them are written before Connect().
	uint64_t outPlain[2] = {0, 0}; // How many of those are popped to the wire.
	uint64_t got[2] = {0, 0}; // Application bytes received by i.
	bool conn[2] = {false, false}, shut[2] = {false, false};
	bool shutHot[2] = {false, false}; // Shut down during the handshake.
	bool mayLose[2] = {false, false}; // The tail of what i has written may be not delivered.
	uint64_t must[2] = {0, 0}; // The bytes written by i which must reach the other side.
	bool closedSeen[2] = {false, false}, errSeen[2] = {false, false}, connSeen[2] = {false, false};
	uint32_t err[2] = {0, 0};
	bool tampered = false;
	bool deaf[2] = {false, false}; // Shut down, i.e. may not read any more.

	void check(int e)
	{
		SSLStream& s = *st[e];
		if (errSeen[e])
			REQ(s.HasError() && s.GetError() == err[e], "an error of stream %d is changed or lost", e);
		if (s.HasError() && !errSeen[e])
		{
			errSeen[e] = true;
			err[e] = s.GetError();
			REQ(err[e] != 0, "an empty error of stream %d", e);
			REQ(SSLErrorToString(err[e]) != nullptr, "no text of an error");
		}
		if (errSeen[e])
			REQ(s.IsClosingOrClosed(), "a broken stream %d is not closed", e);
		if (closedSeen[e])
			REQ(s.IsClosingOrClosed() && !s.IsConnected(), "a closed stream %d is alive again", e);
		closedSeen[e] = s.IsClosingOrClosed();
		if (s.IsClosed())
			REQ(s.IsClosingOrClosed(), "the states of stream %d contradict", e);
		if (s.IsConnected())
			REQ(conn[e], "stream %d is connected without a request", e);
		connSeen[e] = connSeen[e] || s.IsConnected();
		if (!conn[e] && !shut[e])
			REQ(!s.IsEncrypted() && !s.IsClosingOrClosed() && !s.HasError(), "a new stream %d has changed its state", e);
		if (conn[e])
			REQ(s.IsEncrypted(), "a stream %d is not encrypted after connect", e);
	}
	void popNet(int e)
	{
		Buffer::Ptr h;
		uint64_t n = st[e]->PopNetOutput(h);
		std::string s = listToStr(h.GetPointer());
		REQ(s.size() == n, "the returned size %zu of the output of %d is not %zu", (size_t)n, e, s.size());
		uint64_t pl = plain[e] - outPlain[e];
		if (shut[e] && !conn[e])
		{
			REQ(n == 0, "data is leaked after a shutdown of a not connected stream");
		}
		else if (pl > 0)
		{
			REQ(n >= pl, "not encrypted data of %d is lost", e);
			REQ(s.compare(0, pl, appData(e, outPlain[e], pl)) == 0, "not encrypted data of %d is changed", e);
			outPlain[e] += pl;
			wirePlain[e] += pl;
			if (!conn[e])
				REQ(n == pl, "a not connected stream %d has an extra output", e);
		}
		else if (!conn[e])
			REQ(n == 0, "a not connected stream %d has an extra output", e);
		// None of the application data is visible after the encryption is turned on.
		for (size_t i = pl; i + 8 <= s.size(); i += 1)
			for (uint64_t p = plain[e] / 8; p < (sent[e] + 7) / 8 && p < plain[e] / 8 + 6; ++p)
				if (s[i] == (char)appByte(e, p * 8) && (p + 1) * 8 <= sent[e])
					REQ(s.compare(i, 8, appData(e, p * 8, 8)) != 0, "application data of %d is sent not encrypted", e);
		wire[e] += s;
		check(e);
	}
	void popApp(int e)
	{
		Buffer::Ptr h;
		uint64_t n = st[e]->PopAppOutput(h);
		std::string s = listToStr(h.GetPointer());
		REQ(s.size() == n, "the returned size %zu of the data of %d is not %zu", (size_t)n, e, s.size());
		REQ(got[e] + n <= sent[1 - e] && s == appData(1 - e, got[e], n), "stream %d has received what was not sent", e);
		if (!conn[e])
		{
			REQ(n == (shut[e] ? 0 : inPlain[e]), "a not connected stream %d has returned %zu bytes instead of %zu", e, (size_t)n, (size_t)inPlain[e]);
			inPlain[e] = 0;
		}
		got[e] += n;
		check(e);
	}
	void deliver(int e, uint64_t n, bool ref)
	{
		int p = 1 - e;
		uint64_t pl = wirePlain[p] < n ? wirePlain[p] : n;
		wirePlain[p] -= pl;
		inPlain[e] += pl;
		if (ref)
			st[e]->AppendNetInputRef(strToList(wire[p].substr(0, n)));
		else
			st[e]->AppendNetInputCopy(wire[p].data(), n);
		wire[p].erase(0, n);
		check(e);
	}
	void write(int e, uint64_t n)
	{
		std::string s = appData(e, sent[e], n);
		bool dead = st[e]->IsClosingOrClosed();
		bool was = st[e]->IsEncrypted();
		st[e]->AppendAppInputCopy(s.data(), s.size());
		if (!dead && !st[e]->IsClosingOrClosed())
		{
			sent[e] += n;
			if (!was)
				plain[e] += n;
			if (!shut[e])
				must[e] = sent[e];
		}
		else if (!dead)
			sent[e] += n; // Might be encrypted before the closure is noticed.
		check(e);
	}
	void connect(int e)
	{
		st[e]->Connect();
		conn[e] = true;
		check(e);
	}
	void shutdown(int e)
	{
		if (!conn[e])
		{
			// What is not popped yet is dropped.
			must[e] = outPlain[e];
			plain[e] = outPlain[e];
			sent[e] = outPlain[e];
		}
		else if (!st[e]->IsConnected())
		{
			mayLose[e] = true;
			shutHot[e] = !st[e]->IsClosingOrClosed();
		}
		if (!st[e]->IsClosingOrClosed())
			deaf[e] = true;
		st[e]->Shutdown();
		shut[e] = true;
		if (!conn[e])
			REQ(st[e]->IsClosed(), "a shutdown of a not connected stream %d does not close it", e);
		REQ(st[e]->IsClosingOrClosed(), "a shutdown of a stream %d does not close it", e);
		check(e);
	}
	// Everything is delivered until nothing happens.
	void drain()
	{
		for (int i = 0; i < 60; ++i)
		{
			bool any = false;
			for (int e = 0; e < 2; ++e)
			{
				bool ok = st[e]->Update();
				REQ(ok == (st[e]->HasError() ? false : true) || tampered || !ok == st[e]->HasError(), "the result of an update of %d is wrong", e);
				check(e);
				popNet(e);
				if (!wire[1 - e].empty() && (conn[e] || wirePlain[1 - e] > 0 || shut[e]))
				{
					deliver(e, conn[e] || shut[e] ? wire[1 - e].size() : wirePlain[1 - e], (i & 1) != 0);
					any = true;
				}
				uint64_t g = got[e];
				popApp(e);
				any = any || got[e] != g;
				popNet(e);
				any = any || !wire[e].empty();
				if (!conn[1 - e] && !shut[1 - e] && wirePlain[e] == 0)
					any = any && wire[e].empty();
			}
			if (!any)
				return;
		}
		X.fail("the streams do not get quiet");
	}
};

static SSLContext::Ptr newCtx(bool server, SSLVersion maxVer)
{
	SSLContext::Ptr c = SSLContext::NewShared(server);
	c->SetTrust(SSL_TRUST_BYPASS_VERIFICATION);
	if (server)
		REQ(c->AddLocalCert(cert_leaf1, sizeof(cert_leaf1), key_leaf1, sizeof(key_leaf1)), "a local certificate");
	REQ(c->SetMinVersion(SSL_VERSION_TLSv1_2), "a version");
	REQ(c->SetMaxVersion(maxVer), "a version");
	return c;
}

// Other streams of this thread fail. It must not influence anybody.
static void noise(int kind, Pair& p)
{
	SSLStream s(p.ctx[1 - kind]);
	s.Connect();
	s.AppendNetInputCopy("bad data", 8);
	REQ(!s.Update() && s.HasError(), "garbage is accepted");
}

enum Op { OP_NONE, OP_WRITE, OP_WRITE_BIG, OP_CONNECT, OP_SHUTDOWN, OP_POPNET, OP_POPAPP, OP_UPDATE, OP_RX_ALL, OP_RX_ONE, OP_RX_HALF, OP_NOISE, OP_END };
static const char* theOpNames[] = {"", "write", "write big", "connect", "shutdown", "pop net", "pop app", "update", "receive all", "receive 1 byte", "receive a half", "noise", "end"};

static void finalChecks(Pair& p)
{
	if (X.trace)
		for (int e = 0; e < 2; ++e)
			printf("stream %d: connected %d closing %d closed %d error %s, sent %zu received %zu\n", e, p.st[e]->IsConnected(), p.st[e]->IsClosingOrClosed(),
				p.st[e]->IsClosed(), p.st[e]->HasError() ? SSLErrorToString(p.st[e]->GetError()) : "no", (size_t)p.sent[e], (size_t)p.got[e]);
	char b[200];
	for (int e = 0; e < 2; ++e)
	{
		SSLStream& s = *p.st[e];
		int o = 1 - e;
		bool bothConn = p.conn[0] && p.conn[1];
		if (!p.shut[0] && !p.shut[1])
		{
			REQ(!s.HasError(), "stream %d has got an error %s from nowhere", e, SSLErrorToString(s.GetError()));
			REQ(!s.IsClosingOrClosed(), "stream %d is closed by nobody", e);
			if (bothConn)
			{
				REQ(s.IsConnected(), "stream %d is not connected after all the data is exchanged", e);
				REQ(p.got[o] == p.sent[e], "stream %d has sent %zu, the other one has received %zu", e, (size_t)p.sent[e], (size_t)p.got[o]);
				REQ(s.GetVersion() == p.st[o]->GetVersion() && s.GetCipher() == p.st[o]->GetCipher(), "different versions or ciphers");
			}
			else
				REQ(!s.IsConnected(), "stream %d is connected alone", e);
		}
		// The one who has not been shut down gets all that was sent by the other side before its shutdown.
		if (!p.deaf[e] && !p.mayLose[o] && bothConn && p.connSeen[o] && !p.shutHot[0] && !p.shutHot[1])
			REQ(p.got[e] >= p.must[o], "stream %d has received only %zu bytes of %zu sent before a shutdown", e, (size_t)p.got[e], (size_t)p.must[o]);
		if (p.shut[o] && bothConn && !p.shutHot[0] && !p.shutHot[1] && p.connSeen[o])
		{
			REQ(s.IsClosingOrClosed(), "stream %d does not know about a shutdown of the other one", e);
			if (!p.deaf[e])
				REQ(!s.HasError(), "stream %d has an error %s after a correct shutdown of the other side", e, SSLErrorToString(s.GetError()));
		}
		// Nothing was lost on the way when it was shut down and the other side was silent.
		if (p.shut[e] && !p.shutHot[e] && bothConn && p.connSeen[e] && p.sent[o] == p.got[e] && !p.shutHot[o])
			REQ(!s.HasError(), "stream %d has an error %s after its shutdown", e, SSLErrorToString(s.GetError()));
	}
	snprintf(b, sizeof(b), "connects %d%d shutdowns %d%d closed %d%d errors %d%d got %d%d", p.conn[0], p.conn[1], p.shut[0], p.shut[1],
		p.st[0]->IsClosed(), p.st[1]->IsClosed(), p.st[0]->HasError(), p.st[1]->HasError(), p.got[0] > 0, p.got[1] > 0);
	X.outcome(b);
}

static void run_pair()
{
	randInit();
	Pair p;
	int depth = X.param("depth", 6);
	int start = X.param("start", -1);
	int big = X.param("big", 17000);
	if (start < 0)
		start = X.choose(X.param("starts", 5));
	bool v13 = X.param("ver", -1) < 0 ? X.choose(2) : X.param("ver", -1);
	bool dir = X.choose(2);
	// Any of the sides can be the server.
	static SSLContext::Ptr ctxs[2][2];
	if (!ctxs[0][0].IsSet())
		for (int i = 0; i < 2; ++i)
			for (int k = 0; k < 2; ++k)
				ctxs[i][k] = newCtx(i == 1, k ? SSL_VERSION_TLSv1_3 : SSL_VERSION_TLSv1_2);
	for (int e = 0; e < 2; ++e)
	{
		p.ctx[e] = ctxs[(e == 1) != dir][v13];
		p.st[e].reset(new SSLStream(p.ctx[e]));
		p.check(e);
	}
	// Starts: nothing is done; the handshake is at its flights 0-2; all is connected.
	if (start > 0)
	{
		int c = dir ? 1 : 0;
		p.connect(c);
		p.connect(1 - c);
		p.popNet(c);
		if (start == 2 || start == 3)
		{
			p.deliver(1 - c, p.wire[c].size(), false);
			p.popNet(1 - c);
			if (start == 3)
			{
				p.deliver(c, p.wire[1 - c].size(), true);
				p.popNet(c);
			}
		}
		if (start == 4)
			p.drain();
	}
	int prevEnd = -1, prevOp = 0;
	for (int step = 0; step < depth; ++step)
	{
		int ends[32], ops[32], n = 0;
		ends[n] = 0;
		ops[n++] = OP_END;
		for (int e = 0; e < 2; ++e)
		{
			int o = 1 - e;
			auto add = [&](int op) {
				// Independent operations of the ends are done in one order.
				if (prevEnd == 1 && e == 0)
				{
					bool dep = (op >= OP_RX_ALL && op <= OP_RX_HALF && prevOp == OP_POPNET) || prevOp == OP_NOISE || op == OP_CONNECT || prevOp == OP_CONNECT;
					if (!dep) return;
				}
				ends[n] = e;
				ops[n++] = op;
			};
			bool dead = p.st[e]->IsClosingOrClosed();
			bool plainOk = !p.conn[o] && !p.shut[o];
			if (p.conn[e] || plainOk)
			{
				if (prevOp != OP_WRITE || prevEnd != e || !dead)
					add(OP_WRITE);
				if (!dead && p.conn[e] && big)
					add(OP_WRITE_BIG);
			}
			// The other side has to be able to tell the data apart.
			if (!p.conn[e] && !p.shut[e] && p.inPlain[e] == 0 && p.wirePlain[o] == 0 && p.plain[o] == p.outPlain[o])
				add(OP_CONNECT);
			if (prevOp != OP_SHUTDOWN || prevEnd != e)
				add(OP_SHUTDOWN);
			if (prevOp != OP_POPNET || prevEnd != e)
				add(OP_POPNET);
			if ((prevOp != OP_POPAPP || prevEnd != e) && (p.conn[e] || p.shut[e] || p.inPlain[e] > 0))
				add(OP_POPAPP);
			if (prevOp != OP_UPDATE || prevEnd != e)
				add(OP_UPDATE);
			size_t w = p.wire[o].size();
			if (w > 0 && !(p.conn[e] || p.shut[e]))
				w = p.wirePlain[o];
			if (w > 0)
			{
				add(OP_RX_ALL);
				if (w > 1) add(OP_RX_ONE);
				if (w > 3) add(OP_RX_HALF);
			}
			if (e == 1 && X.budget > 0 && prevOp != OP_NOISE)
				add(OP_NOISE);
		}
		int i = X.choose(n);
		int e = ends[i], op = ops[i];
		if (X.trace)
			printf("step %d: stream %d: %s\n", step, e, theOpNames[op]);
		prevEnd = e;
		prevOp = op;
		if (op == OP_END)
			break;
		size_t w = p.wire[1 - e].size();
		if (!(p.conn[e] || p.shut[e]))
			w = p.wirePlain[1 - e];
		switch (op)
		{
		case OP_WRITE: p.write(e, 16); break;
		case OP_WRITE_BIG: p.write(e, big); break;
		case OP_CONNECT: p.connect(e); break;
		case OP_SHUTDOWN: p.shutdown(e); break;
		case OP_POPNET: p.popNet(e); break;
		case OP_POPAPP: p.popApp(e); break;
		case OP_UPDATE:
			REQ(p.st[e]->Update() == !p.st[e]->HasError(), "the result of an update of %d is wrong", e);
			p.check(e);
			break;
		case OP_RX_ALL: p.deliver(e, w, (step & 1) != 0); break;
		case OP_RX_ONE: p.deliver(e, 1, (step & 1) != 0); break;
		case OP_RX_HALF: p.deliver(e, w / 2, (step & 1) != 0); break;
		case OP_NOISE: --X.budget; noise(step & 1, p); break;
		}
	}
	p.drain();
	finalChecks(p);
}

// Records of TLS: 5 bytes of a header with the length of the rest.
static std::vector<std::string> records(const std::string& s)
{
	std::vector<std::string> r;
	for (size_t i = 0; i < s.size();)
	{
		REQ(i + 5 <= s.size(), "a cut record");
		size_t n = 5 + (uint8_t)s[i + 3] * 256 + (uint8_t)s[i + 4];
		REQ(i + n <= s.size(), "a cut record");
		r.push_back(s.substr(i, n));
		i += n;
	}
	return r;
}

enum Tamper { T_XOR, T_DROP, T_DUP, T_SWAP, T_ALERT_CLOSE, T_ALERT_FATAL, T_RECORD, T_GARBAGE, T_CUT, T_COUNT };

// An exchange where one flight of one of the sides is changed on the way.
static void run_tamper()
{
	randInit();
	Pair p;
	bool v13 = X.choose(2), dir = X.choose(2);
	int start = X.choose(2); // During the handshake or after it.
	static SSLContext::Ptr ctxs[2][2];
	if (!ctxs[0][0].IsSet())
		for (int i = 0; i < 2; ++i)
			for (int k = 0; k < 2; ++k)
				ctxs[i][k] = newCtx(i == 1, k ? SSL_VERSION_TLSv1_3 : SSL_VERSION_TLSv1_2);
	for (int e = 0; e < 2; ++e)
	{
		p.ctx[e] = ctxs[(e == 1) != dir][v13];
		p.st[e].reset(new SSLStream(p.ctx[e]));
		p.connect(e);
	}
	if (start == 1)
	{
		p.drain();
		REQ(p.st[0]->IsConnected() && p.st[1]->IsConnected(), "a handshake has failed");
	}
	p.tampered = true;
	p.write(0, 16);
	p.write(1, 16);
	p.write(0, 24);
	p.write(0, 8);
	bool closes = X.choose(2);
	if (start == 1 && closes)
		p.shutdown(0);
	// Who sends the broken flight and which one it is by order.
	int from = X.choose(2), flight = X.choose(start == 1 ? 1 : 3);
	int seen = 0, kind = -1, rec = -1, recs = 0;
	bool hit = false;
	for (int i = 0; i < 16; ++i)
	{
		for (int e = 0; e < 2; ++e)
		{
			int o = 1 - e;
			p.popNet(e);
			if (p.wire[e].empty() || hit)
				continue;
			if (e != from || seen++ != flight)
				continue;
			hit = true;
			std::vector<std::string> rs = records(p.wire[e]);
			recs = rs.size();
			rec = X.choose(recs);
			kind = X.choose(T_COUNT);
			std::string& r = rs[rec];
			static const std::string alertClose("\x15\x03\x03\x00\x02\x01\x00", 7), alertFatal("\x15\x03\x03\x00\x02\x02\x28", 7),
				record("\x17\x03\x03\x00\x14qwertyuiopasdfghjklz", 25), garbage("GET / HTTP/1.1\r\n\r\n");
			switch (kind)
			{
			case T_XOR:
			{
				int at[] = {0, 1, 2, 3, 4, 5, 6, (int)r.size() / 2, (int)r.size() - 1, (int)r.size() - 17};
				int k = at[X.choose(10)];
				if (k >= 0 && k < (int)r.size()) r[k] ^= X.choose(2) ? 0x80 : 1;
				break;
			}
			case T_DROP: r.clear(); break;
			case T_DUP: r += r; break;
			case T_SWAP: if (rec + 1 < recs) std::swap(rs[rec], rs[rec + 1]); else kind = T_COUNT; break;
			case T_ALERT_CLOSE: r = alertClose + r; break;
			case T_ALERT_FATAL: r = alertFatal + r; break;
			case T_RECORD: r = record + r; break;
			case T_GARBAGE: r = garbage + r; break;
			case T_CUT: r.resize(r.size() / 2); for (size_t k = rec + 1; k < rs.size(); ++k) rs[k].clear(); break;
			}
			// Delivered at once or cut before and after the changed record, with or without reads between.
			int cut = X.choose(3);
			std::string pre, post;
			for (int k = 0; k < recs; ++k)
				(k < rec ? pre : k > rec ? post : r) += k == rec ? std::string() : rs[k];
			if (kind == T_SWAP) { std::string().swap(post); for (int k = rec + 1; k < recs; ++k) post += rs[k]; }
			p.wire[e] = pre + r + post;
			if (cut > 0 && !pre.empty()) { p.deliver(o, pre.size(), false); if (cut == 2) p.popApp(o); }
			if (cut > 0 && !r.empty()) { p.deliver(o, r.size(), true); if (cut == 2) p.popApp(o); }
		}
		for (int e = 0; e < 2; ++e)
		{
			if (!p.wire[1 - e].empty())
				p.deliver(e, p.wire[1 - e].size(), i & 1);
			p.popApp(e);
			bool ok = p.st[e]->Update();
			REQ(ok == !p.st[e]->HasError(), "the result of an update of %d is wrong", e);
			p.check(e);
		}
	}
	int to = 1 - from;
	bool err = p.st[to]->HasError();
	if (!hit)
		REQ(kind < 0 && (closes && start == 1 || (!p.st[0]->HasError() && !p.st[1]->HasError() && p.got[0] == p.sent[1] && p.got[1] == p.sent[0])), "a failure without a reason");
	else if (kind != T_COUNT)
	{
		REQ(err || (kind == T_DUP && rec + 1 == recs && closes) || p.got[to] < p.sent[from] || !p.st[to]->IsClosingOrClosed(), "a tampered stream is closed as a correct one");
		if (kind == T_GARBAGE || kind == T_ALERT_FATAL)
			REQ(err && !p.st[to]->Update() && !p.st[to]->IsConnected(), "garbage is accepted");
		if (start == 1 && !(closes && to == 0) && (kind == T_RECORD || kind == T_GARBAGE || kind == T_DUP || kind == T_ALERT_FATAL || kind == T_ALERT_CLOSE))
		{
			// Everything before the broken record was correct, delivered and must be given to the user.
			uint64_t lens[2][3] = {{16, 40, 48}, {16, 16, 16}};
			uint64_t ok = rec + (kind == T_DUP);
			if (recs >= (from ? 1 : 3))
				REQ(p.got[to] >= (ok == 0 ? 0 : lens[from][ok > 3 ? 2 : ok - 1]) || ok > (from ? 1 : 3), "%zu bytes are received, but %d correct records were delivered before the broken one",
					(size_t)p.got[to], (int)ok);
		}
	}
	char b[100];
	snprintf(b, sizeof(b), "start %d kind %d error %d%d got %d%d", start, kind, p.st[0]->HasError(), p.st[1]->HasError(), p.got[0] == p.sent[1], p.got[1] == p.sent[0]);
	X.outcome(b);
}

struct Cert { const uint8_t *data; uint32_t size; const uint8_t* key; uint32_t keySize; int ca; bool expired; };
static const Cert theCerts[] = {
	{cert_leaf1, sizeof(cert_leaf1), key_leaf1, sizeof(key_leaf1), 1, false},
	{cert_leaf2, sizeof(cert_leaf2), key_leaf2, sizeof(key_leaf2), 2, false},
	{cert_exp1, sizeof(cert_exp1), key_exp1, sizeof(key_exp1), 1, true},
	{cert_self, sizeof(cert_self), key_self, sizeof(key_self), 4, false},
	{cert_rsa, sizeof(cert_rsa), key_rsa, sizeof(key_rsa), 8, false},
};

// A full exchange between two contexts. Returns if both are connected and the data has passed in both directions.
static bool exchange(const SSLContext::Ptr& client, const SSLContext::Ptr& server, SSLVersion* ver, SSLCipher* ciph, const char* host = nullptr)
{
	Pair p;
	p.ctx[0] = client;
	p.ctx[1] = server;
	for (int e = 0; e < 2; ++e)
		p.st[e].reset(new SSLStream(p.ctx[e]));
	if (host != nullptr)
		REQ(p.st[0]->SetHostName(host), "a host name is not accepted");
	p.connect(0);
	p.connect(1);
	p.write(0, 16);
	p.write(1, 16);
	p.tampered = true;
	p.drain();
	bool bad = p.st[0]->HasError() || p.st[1]->HasError();
	bool ok = !bad && p.st[0]->IsConnected() && p.st[1]->IsConnected();
	REQ(ok || bad, "a handshake is neither done nor failed");
	if (!ok)
	{
		// A failed handshake must be known to both sides, and the one who has rejected the other gives it no data.
		REQ(p.st[0]->HasError() || p.st[0]->IsClosingOrClosed(), "the client does not know that the handshake has failed");
		REQ(p.st[1]->HasError() || p.st[1]->IsClosingOrClosed(), "the server does not know that the handshake has failed");
		REQ(p.got[1] == 0, "a client which has failed its handshake has sent data");
		return false;
	}
	REQ(p.got[0] == 16 && p.got[1] == 16, "the data is lost");
	REQ(p.st[0]->GetVersion() == p.st[1]->GetVersion() && p.st[0]->GetCipher() == p.st[1]->GetCipher(), "the sides have different parameters");
	if (ver) *ver = p.st[0]->GetVersion();
	if (ciph) *ciph = p.st[0]->GetCipher();
	std::string h = p.st[1]->GetHostName();
	REQ(h == (host == nullptr ? "" : host), "the server has got a host name '%s'", h.c_str());
	return true;
}

static int addCas(SSLContext* c)
{
	int mask = X.choose(8);
	if (mask & 1) REQ(c->AddRemoteCert(cert_ca1, sizeof(cert_ca1)), "a remote certificate");
	if (mask & 2) REQ(c->AddRemoteCert(cert_ca2, sizeof(cert_ca2)), "a remote certificate");
	if (mask & 4) REQ(c->AddRemoteCert(cert_self, sizeof(cert_self)), "a remote certificate");
	return mask;
}

// Who is trusted: all the modes, certificates and authorities, for the server only and for both sides.
static void run_trust()
{
	randInit();
	SSLContext::Ptr cl = SSLContext::NewShared(false), sv = SSLContext::NewShared(true);
	int cert = X.choose(4), trust = X.choose(5), order = X.choose(2);
	bool dflt = trust == 4; // Not set, the default is strict.
	if (dflt) trust = 0;
	bool v13 = X.choose(2);
	cl->SetMaxVersion(v13 ? SSL_VERSION_TLSv1_3 : SSL_VERSION_TLSv1_2);
	const SSLTrust trusts[] = {SSL_TRUST_STRICT, SSL_TRUST_RELAXED, SSL_TRUST_UNSECURE, SSL_TRUST_BYPASS_VERIFICATION};
	if (order == 0 && !dflt) cl->SetTrust(trusts[trust]);
	int cas = addCas(cl.GetPointer());
	if (order == 1 && !dflt) cl->SetTrust(trusts[trust]);
	sv->SetTrust(SSL_TRUST_BYPASS_VERIFICATION);
	REQ(sv->AddLocalCert(theCerts[cert].data, theCerts[cert].size, theCerts[cert].key, theCerts[cert].keySize), "a certificate");
	// The other direction.
	int back = X.param("mutual", 1) ? X.choose(4) : 3, clCert = 4, svCas = 0;
	if (back != 3)
	{
		svCas = addCas(sv.GetPointer());
		clCert = X.choose(5);
		sv->SetTrust(trusts[back]);
		if (clCert < 4)
		{
			REQ(cl->AddLocalCert(theCerts[clCert].data, theCerts[clCert].size, theCerts[clCert].key, theCerts[clCert].keySize), "a certificate");
		}
	}
	bool ok = exchange(cl, sv, nullptr, nullptr);
	auto valid = [&](int t, int c, int store, bool& must) {
		must = t == 3 || (c < 4 && !theCerts[c].expired && (store & theCerts[c].ca));
		// Relaxation of the rules (unknown authorities come together with the certificate) never covers out of date
		// certificates and an absence of any.
		bool may = must || (t > 0 && c < 4 && !theCerts[c].expired);
		return may;
	};
	bool must1, must2;
	bool may1 = valid(trust, cert, cas, must1), may2 = valid(back, clCert, svCas, must2);
	REQ(!ok || (may1 && may2), "an untrusted side is accepted: server certificate %d with authorities %d in mode %d, client's %d with %d in mode %d", cert, cas, trust, clCert, svCas, back);
	REQ(ok || !must1 || !must2, "a trusted side is rejected: server certificate %d with authorities %d in mode %d, client's %d with %d in mode %d", cert, cas, trust, clCert, svCas, back);
	char b[100];
	snprintf(b, sizeof(b), "trust %d of certificate %d, back %d of %d: %s", trust, cert, back, clCert, ok ? "accepted" : "rejected");
	X.outcome(b);
}

static const SSLVersion theVers[] = {SSL_VERSION_TLSv1_2, SSL_VERSION_TLSv1_3, SSL_VERSION_ANY};
static const SSLCipher theCiphs[] = {SSL_CIPHER_ECDHE_ECDSA_AES128_GCM_SHA256, SSL_CIPHER_ECDHE_ECDSA_AES256_GCM_SHA384,
	SSL_CIPHER_TLS_AES_128_GCM_SHA256, SSL_CIPHER_TLS_AES_256_GCM_SHA384, SSL_CIPHER_TLS_CHACHA20_POLY1305_SHA256};

struct Conf
{
	int lo = 12, hi = 13; // Versions.
	std::vector<int> ciphs;
	bool has(int ver) const { for (int c : ciphs) if ((c >= 2) == (ver == 13)) return true; return false; }
};

static void applyVer(SSLContext* c, Conf& m, int n)
{
	for (int i = 0; i < n; ++i)
	{
		int op = X.choose(7);
		if (op == 6) return;
		int v = op % 3;
		if (op < 3)
		{
			REQ(c->SetMinVersion(theVers[v]), "a version is not accepted");
			m.lo = v == 2 ? 10 : 12 + v;
			if (m.hi < m.lo) m.hi = m.lo;
		}
		else
		{
			REQ(c->SetMaxVersion(theVers[v]), "a version is not accepted");
			m.hi = v == 2 ? 13 : 12 + v;
			if (m.lo > m.hi) m.lo = m.hi;
		}
	}
}

static void applyCiph(SSLContext* c, Conf& m, int n)
{
	for (int i = 0; i < n; ++i)
	{
		int k = X.choose(6);
		if (k == 5) return;
		REQ(c->AddCipher(theCiphs[k]), "a cipher is not accepted");
		bool dup = false;
		for (int o : m.ciphs) dup = dup || o == k;
		if (!dup) m.ciphs.push_back(k);
	}
}

// The negotiated version and cipher are those allowed by both sides.
static void run_params()
{
	randInit();
	SSLContext::Ptr c[2];
	Conf m[2];
	int vers = X.param("vers", 2), ciphs = X.param("ciphs", 1);
	bool ciphFirst = X.choose(2);
	for (int i = 0; i < 2; ++i)
	{
		c[i] = SSLContext::NewShared(i == 1);
		c[i]->SetTrust(SSL_TRUST_BYPASS_VERIFICATION);
		if (ciphFirst) applyCiph(c[i].GetPointer(), m[i], ciphs);
		applyVer(c[i].GetPointer(), m[i], vers);
		if (!ciphFirst) applyCiph(c[i].GetPointer(), m[i], ciphs);
	}
	REQ(c[1]->AddLocalCert(cert_leaf1, sizeof(cert_leaf1), key_leaf1, sizeof(key_leaf1)), "a certificate");
	int lo = m[0].lo > m[1].lo ? m[0].lo : m[1].lo, hi = m[0].hi < m[1].hi ? m[0].hi : m[1].hi;
	SSLVersion v = SSL_VERSION_NONE;
	SSLCipher k = SSL_CIPHER_NONE;
	bool ok = exchange(c[0], c[1], &v, &k);
	char b[100];
	snprintf(b, sizeof(b), "versions %d-%d, ciphers %zu and %zu: %s version %d cipher %d", lo, hi, m[0].ciphs.size(), m[1].ciphs.size(), ok ? "done" : "failed", (int)v, (int)k);
	X.outcome(b);
	// The ciphers of both sides in the order of the client.
	auto common = [&](int ver, std::vector<int>& res) {
		bool any0 = !m[0].has(ver), any1 = !m[1].has(ver);
		for (int i : any0 ? m[1].ciphs : m[0].ciphs)
		{
			if ((i >= 2) != (ver == 13)) continue;
			bool in = any0 || any1;
			for (int j : m[1].ciphs) in = in || j == i;
			if (in) res.push_back(i);
		}
		return any0 && any1;
	};
	if (!ok)
	{
		std::vector<int> r;
		REQ(lo > hi || (!common(hi, r) && r.empty()) || hi < 12, "a handshake has failed with common versions %d-%d and ciphers", lo, hi);
		return;
	}
	REQ(lo <= hi, "a handshake is done without common versions");
	int ver = v == SSL_VERSION_TLSv1_3 ? 13 : v == SSL_VERSION_TLSv1_2 ? 12 : v == SSL_VERSION_TLSv1_1 ? 11 : 10;
	REQ(ver >= lo && ver <= hi, "a version %d is out of the range %d-%d", ver, lo, hi);
	std::vector<int> r;
	bool any = common(ver, r);
	if (!any)
	{
		bool in = false;
		for (int i : r) in = in || theCiphs[i] == k;
		REQ(in, "a cipher %d is not allowed by both sides", (int)k);
		if (m[0].has(ver))
			REQ(theCiphs[r[0]] == k, "a cipher %d is not the first of the allowed", (int)k);
	}
	if (ver < hi)
	{
		std::vector<int> rh;
		REQ(!common(hi, rh) && rh.empty(), "a version %d is selected instead of %d", ver, hi);
	}
}

// Contexts are equal when they are configured equally.
struct CtxModel
{
	int trust = 0, local = -1, lo = 0, hi = 0;
	std::vector<int> ciphs, cas;
	bool operator==(const CtxModel& o) const { return trust == o.trust && local == o.local && lo == o.lo && hi == o.hi && ciphs == o.ciphs && cas == o.cas; }
};

static void run_compare()
{
	randInit();
	int depth = X.param("depth", 2);
	SSLContext::Ptr c[2];
	CtxModel m[2];
	for (int i = 0; i < 2; ++i)
	{
		bool server = X.choose(2);
		c[i] = SSLContext::NewShared(server);
		c[i]->SetTrust(SSL_TRUST_BYPASS_VERIFICATION);
		m[i].trust = 3 + 10 * server;
		for (int d = 0; d < depth; ++d)
		{
			int op = X.choose(14);
			if (op == 13) break;
			if (op < 3) { const SSLTrust t[] = {SSL_TRUST_STRICT, SSL_TRUST_RELAXED, SSL_TRUST_UNSECURE}; c[i]->SetTrust(t[op]); m[i].trust = op + 10 * server; }
			else if (op < 5)
			{
				REQ(op == 3 ? c[i]->AddRemoteCert(cert_ca1, sizeof(cert_ca1)) : c[i]->AddRemoteCert(cert_ca2, sizeof(cert_ca2)), "a certificate");
				bool dup = false;
				for (int x : m[i].cas) dup = dup || x == op;
				if (!dup) m[i].cas.push_back(op);
			}
			else if (op < 7)
			{
				if (m[i].local >= 0) continue;
				const Cert& k = theCerts[op - 5];
				REQ(c[i]->AddLocalCert(k.data, k.size, k.key, k.keySize), "a certificate");
				m[i].local = op;
			}
			else if (op < 9)
			{
				int v = op == 7 ? 2 : 3;
				REQ(c[i]->SetMinVersion(theVers[op - 7]), "a version");
				m[i].lo = v;
				if (m[i].hi != 0 && m[i].hi < v) m[i].hi = v;
			}
			else if (op < 11)
			{
				int v = op == 9 ? 2 : 3;
				REQ(c[i]->SetMaxVersion(theVers[op - 9]), "a version");
				m[i].hi = v;
				if (m[i].lo != 0 && m[i].lo > v) m[i].lo = v;
			}
			else
			{
				int k = op == 11 ? 0 : 3;
				REQ(c[i]->AddCipher(theCiphs[k]), "a cipher");
				bool dup = false;
				for (int x : m[i].ciphs) dup = dup || x == k;
				if (!dup) m[i].ciphs.push_back(k);
			}
		}
	}
	REQ(*c[0] == *c[0] && !(*c[0] != *c[0]), "a context is not equal to itself");
	bool eq = *c[0] == *c[1];
	REQ(eq == (*c[1] == *c[0]) && eq == !(*c[0] != *c[1]), "a comparison is not symmetric");
	if (m[0] == m[1])
		REQ(eq, "equal contexts are different");
	else
	{
		// The order of certificates does not matter, and unset limits are not different from the same given ones.
		std::sort(m[0].cas.begin(), m[0].cas.end());
		std::sort(m[1].cas.begin(), m[1].cas.end());
		for (int i = 0; i < 2; ++i)
			if (m[i].lo == 0 && m[1 - i].lo != 0) m[0].lo = m[1].lo = 0;
		for (int i = 0; i < 2; ++i)
			if (m[i].hi == 0 && m[1 - i].hi != 0) m[0].hi = m[1].hi = 0;
		REQ(!eq || m[0] == m[1], "different contexts are equal");
	}
	X.outcome(eq ? "equal" : "different");
}

// Broken and foreign certificates and keys, host names of all kinds of length.
static void run_certs()
{
	randInit();
	if (X.choose(2))
	{
		static const int lens[] = {1, 2, 63, 64, 127, 254, 255};
		std::string h(lens[X.choose(7)], 'a');
		bool v13 = X.choose(2);
		SSLContext::Ptr cl = newCtx(false, v13 ? SSL_VERSION_TLSv1_3 : SSL_VERSION_TLSv1_2), sv = newCtx(true, SSL_VERSION_ANY);
		REQ(exchange(cl, sv, nullptr, nullptr, h.c_str()), "a handshake with a host name has failed");
		X.outcome("host name");
		return;
	}
	int cert = X.choose(4), key = X.choose(4), cutC = X.choose(3), cutK = X.choose(3);
	SSLContext::Ptr cl = SSLContext::NewShared(false), sv = SSLContext::NewShared(true);
	cl->SetTrust(SSL_TRUST_BYPASS_VERIFICATION);
	sv->SetTrust(X.choose(2) ? SSL_TRUST_BYPASS_VERIFICATION : SSL_TRUST_RELAXED);
	std::string c((const char*)theCerts[cert].data, theCerts[cert].size), k((const char*)theCerts[key].key, theCerts[key].keySize);
	if (cutC == 1) c.resize(c.size() / 2);
	if (cutC == 2) c[3] ^= 0x40;
	if (cutK == 1) k.resize(k.size() / 2);
	if (cutK == 2) k[1] ^= 0x40;
	bool good = cert == key && cutC == 0 && cutK == 0;
	REQ(sv->AddLocalCert(c.data(), c.size(), k.data(), k.size()) == good, "a pair of a certificate and a key is %s", good ? "rejected" : "accepted");
	sv->SetTrust(SSL_TRUST_BYPASS_VERIFICATION);
	if (!good)
	{
		// Nothing is broken by the failure.
		REQ(sv->AddLocalCert(theCerts[0].data, theCerts[0].size, theCerts[0].key, theCerts[0].keySize), "a certificate is not accepted after a wrong one");
	}
	REQ(exchange(cl, sv, nullptr, nullptr), "a handshake has failed");
	std::string r((const char*)cert_ca1, sizeof(cert_ca1));
	r.resize(r.size() / 2);
	REQ(!cl->AddRemoteCert(r.data(), r.size()), "a broken remote certificate is accepted");
	X.outcome(good ? "right" : "wrong");
}

// Certificates and keys in files and in the text form.
static std::string pemCert(const Cert& c)
{
	const uint8_t* p = c.data;
	X509* x = d2i_X509(nullptr, &p, c.size);
	BIO* b = BIO_new(BIO_s_mem());
	PEM_write_bio_X509(b, x);
	char* d;
	long n = BIO_get_mem_data(b, &d);
	std::string s(d, n);
	BIO_free(b);
	X509_free(x);
	return s;
}

static std::string pemKey(const Cert& c, const char* pass)
{
	const uint8_t* p = c.key;
	EVP_PKEY* k = d2i_AutoPrivateKey(nullptr, &p, c.keySize);
	BIO* b = BIO_new(BIO_s_mem());
	PEM_write_bio_PrivateKey(b, k, pass ? EVP_aes_128_cbc() : nullptr, (const unsigned char*)pass, pass ? strlen(pass) : 0, nullptr, nullptr);
	char* d;
	long n = BIO_get_mem_data(b, &d);
	std::string s(d, n);
	BIO_free(b);
	EVP_PKEY_free(k);
	return s;
}

struct TmpFile
{
	char path[64];
	TmpFile(const std::string& s)
	{
		strcpy(path, "/tmp/mcssl-XXXXXX");
		int fd = mkstemp(path);
		REQ(fd >= 0 && ::write(fd, s.data(), s.size()) == (ssize_t)s.size(), "can't create a temporary file");
		::close(fd);
	}
	~TmpFile() { unlink(path); }
};

static void run_files()
{
	randInit();
	int trust = X.choose(4);
	const SSLTrust trusts[] = {SSL_TRUST_STRICT, SSL_TRUST_RELAXED, SSL_TRUST_UNSECURE, SSL_TRUST_BYPASS_VERIFICATION};
	int cert = X.choose(5), kind = X.choose(4); // A text, a binary, a cut text, no file.
	std::string c = pemCert(theCerts[cert]);
	if (kind == 1) c.assign((const char*)theCerts[cert].data, theCerts[cert].size);
	if (kind == 2) c.resize(c.size() / 2);
	TmpFile fc(c);
	if (kind == 3) unlink(fc.path);
	bool good = kind == 0 && !(trust == 0 && cert == 4);
	if (X.choose(2))
	{
		SSLContext::Ptr cl = SSLContext::NewShared(false);
		cl->SetTrust(trusts[trust]);
		bool file = X.choose(2);
		bool ok;
		if (file)
			ok = cl->AddRemoteCertFile(fc.path);
		else
		{
			if (cert == 4 || kind == 3) return;
			ok = cl->AddRemoteCert(c.data(), c.size());
			good = kind != 2;
		}
		REQ(ok == good, "a remote certificate %d of kind %d is %s in mode %d", cert, kind, ok ? "accepted" : "rejected", trust);
		if (cert == 4) { X.outcome("rsa"); return; }
		SSLContext::Ptr sv = SSLContext::NewShared(true);
		sv->SetTrust(SSL_TRUST_BYPASS_VERIFICATION);
		REQ(sv->AddLocalCert(theCerts[cert].data, theCerts[cert].size, theCerts[cert].key, theCerts[cert].keySize), "a certificate");
		bool done = exchange(cl, sv, nullptr, nullptr);
		// A self-signed one is trusted when it is given, the others need their authority.
		if (trust == 0)
			REQ(done == (good && cert == 3), "a certificate %d of kind %d in a file gives a %s", cert, kind, done ? "connect" : "failure");
		X.outcome(done ? "remote, connected" : "remote, failed");
		return;
	}
	int key = X.choose(5), pass = X.choose(4); // No password, a right one, a wrong one, a broken key.
	std::string k = pemKey(theCerts[key], pass == 1 || pass == 2 ? "some password" : nullptr);
	if (pass == 3) k.resize(k.size() / 2);
	TmpFile fk(k);
	SSLContext::Ptr sv = SSLContext::NewShared(true);
	sv->SetTrust(trusts[trust]);
	good = good && key == cert && pass < 2;
	bool ok = sv->AddLocalCertFile(fc.path, fk.path, pass == 2 ? "another" : "some password");
	REQ(ok == good, "a local certificate %d of kind %d with a key %d/%d is %s in mode %d", cert, kind, key, pass, ok ? "accepted" : "rejected", trust);
	if (good)
	{
		sv->SetTrust(SSL_TRUST_BYPASS_VERIFICATION);
		SSLContext::Ptr cl = SSLContext::NewShared(false);
		cl->SetTrust(SSL_TRUST_BYPASS_VERIFICATION);
		SSLVersion v;
		REQ(exchange(cl, sv, &v, nullptr), "a handshake has failed");
	}
	X.outcome(good ? "local, accepted" : "local, rejected");
}

XScenario theXScenarios[] = {
	{"ssl_files", run_files},
	{"ssl_trust", run_trust},
	{"ssl_params", run_params},
	{"ssl_compare", run_compare},
	{"ssl_certs", run_certs},
	{"ssl_tamper", run_tamper},
	{"ssl_stream", run_pair},
	{nullptr, nullptr},
};
