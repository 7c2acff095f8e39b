// Simulated kernel: descriptors, TCP sockets, epoll, eventfd, DNS. It lives in the host, is reset for every execution,
// and each call is a scheduling point of the model checker. Faults (short transfers, errors, delayed connects) are
// environment deviations enabled by the scenario (mc_k_faults). See DESIGN.md for the modelled semantics.
#include "rt.h"
#include "kern.h"

#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdio.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define PC __builtin_return_address(0)

namespace rt {

static const int MAXFD = 64;
static const int MAXSK = 128;
static const int MAXEP = 16;
static const uptr KBASE = 0x700000000000ull;

struct EpItem { int fd; int sk; int evfd; uint32_t events; uint64_t data; bool ready; uint64_t seq; };
struct Ep { bool used; uptr addr; Vec<EpItem> items; uint64_t seq; };
struct Opt { int level, name, val; };
struct Sk
{
	KState state;
	int peer;
	uptr addr;
	bool hasFd, nonblock, fin, shutRd, shutWr, nospace, peerGone, bound, reset, connAck;
	int family;
	int err;
	Vec<uint8_t> rx; size_t rxPos;
	sockaddr_storage local, remote;
	int backlog;
	Vec<int> acceptQ;
	Vec<Opt> opts;
	uint64_t sent, recvd;
	size_t rxLen() const { return rx.n - rxPos; }
};
struct Fd { int kind; int idx; uint64_t cnt; bool nonblock; bool armed; };

static Fd fds[MAXFD];
static Sk sks[MAXSK];
static int nSk;
static Ep eps[MAXEP];
static int faults;
static long cap;
static int connMode;
static bool pumpOn;
static Vec<int> pending; // connecting sockets waiting for the network thread
static uint64_t portNext;
static bool plain[MAXT];
static int shortMod;
static void (*postHook)();

static const int MAXDNS = 16;
struct Dns { const char* name; int rc; int err; uint64_t latency; int n; sockaddr_storage addr[4]; };
static Dns dns[MAXDNS];
static int nDns;
static uint64_t dnsCalls;

void spuriousHook() {}
void uringReset();
void uringWake(int sk);
void uringWakeEvent(int fd);
void uringPoint(int sk, int ev);
bool uringPending();
void uringPump();
static int plainForce = -1;
static bool strictFd = true;

void kernReset()
{
	for (int i = 0; i < MAXFD; ++i)
		fds[i] = Fd();
	for (int i = 0; i < nSk; ++i)
	{
		Sk& s = sks[i];
		s.rx.clear();
		s.acceptQ.clear();
		s.opts.clear();
	}
	nSk = 0;
	for (int i = 0; i < MAXEP; ++i)
	{
		eps[i].used = false;
		eps[i].items.clear();
	}
	faults = 0;
	cap = 1 << 16;
	connMode = 0;
	pumpOn = false;
	pending.clear();
	portNext = 40000;
	memset(plain, 0, sizeof(plain));
	shortMod = 0;
	nDns = 0;
	dnsCalls = 0;
	plainForce = -1;
	strictFd = true;
	uringReset();
}

static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
	register long r10 asm("r10") = d;
	register long r8 asm("r8") = e;
	register long r9 asm("r9") = f;
	long ret;
	asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (ret < 0 && ret > -4096) { errno = -ret; return -1; }
	return ret;
}

static int err(int e) { errno = e; observe(0xE000 + e); return -1; }
static long ret(long v) { observe(0xA000 + v); return v; }

static bool faultsOn(int kind) { return (faults & kind) != 0 && !(plainForce >= 0 ? plainForce : plain[curTid()]); }

// All accesses to a kernel object are ordered by its lock inside of the kernel.
static void use(uptr a) { effRead(a, true); effWrite(a, true, true); }

static int newFd(int kind)
{
	for (int i = 3; i < MAXFD; ++i)
		if (fds[i].kind == K_NONE)
		{
			fds[i] = Fd();
			fds[i].kind = kind;
			return i;
		}
	fail("simulated kernel: too many descriptors");
}

static uptr fdTabAddr() { return KBASE; }

static Fd* getFd(int fd, int kind)
{
	if (fd < 0 || fd >= MAXFD || fds[fd].kind == K_NONE)
	{
		errno = EBADF;
		return nullptr;
	}
	if (kind != K_NONE && fds[fd].kind != kind)
	{
		errno = ENOTSOCK;
		return nullptr;
	}
	return &fds[fd];
}

// A descriptor given to a system call by the code under test. A closed one is not just an error: its number might
// already be of another file, opened by another thread.
static Fd* useFd(int fd, int kind)
{
	if (strictFd && (fd < 0 || fd >= MAXFD || fds[fd].kind == K_NONE))
		fail("a system call on a descriptor which is not open");
	return getFd(fd, kind);
}

static int newSk(int family)
{
	if (nSk == MAXSK)
		fail("simulated kernel: too many sockets");
	int i = nSk++;
	Sk& s = sks[i];
	Vec<uint8_t> rx = s.rx;
	Vec<int> q = s.acceptQ;
	Vec<Opt> o = s.opts;
	memset((void*)&s, 0, sizeof(s));
	s.rx = rx; s.acceptQ = q; s.opts = o;
	s.rx.clear(); s.acceptQ.clear(); s.opts.clear();
	s.peer = -1;
	s.family = family;
	s.state = KS_NEW;
	s.addr = KBASE + 0x10000 + i * 64;
	return i;
}

static uint32_t skMask(const Sk& s)
{
	switch (s.state)
	{
	case KS_NEW: return EPOLLOUT | EPOLLHUP | (s.shutRd ? EPOLLIN | EPOLLRDHUP : 0);
	case KS_LISTEN: return s.acceptQ.n > 0 ? EPOLLIN : 0;
	case KS_CONNECTING: return s.err ? EPOLLERR : 0;
	default: break;
	}
	uint32_t m = 0;
	bool rd = s.fin || s.shutRd || s.state == KS_CLOSED;
	bool wr = s.shutWr || s.state == KS_CLOSED;
	if (s.err) m |= EPOLLERR;
	if (rd) m |= EPOLLIN | EPOLLRDHUP;
	if (rd && wr) m |= EPOLLHUP;
	if (s.rxLen() > 0) m |= EPOLLIN;
	if (wr || s.peer < 0 || s.peerGone || (long)sks[s.peer].rxLen() < cap) m |= EPOLLOUT;
	return m;
}

static uint32_t itemMask(const EpItem& it)
{
	uint32_t m = 0;
	if (it.sk >= 0)
		m = skMask(sks[it.sk]);
	else if (fds[it.evfd].cnt > 0)
		m = EPOLLIN;
	return m & (it.events | EPOLLERR | EPOLLHUP);
}

static void itemReady(Ep& e, EpItem& it)
{
	if (!it.ready)
	{
		it.ready = true;
		it.seq = e.seq++;
	}
	use(e.addr);
}

// Readiness of the socket has changed in the given way.
static void wake(int sk, uint32_t how)
{
	for (int i = 0; i < MAXEP; ++i)
	{
		if (!eps[i].used)
			continue;
		for (size_t k = 0; k < eps[i].items.n; ++k)
		{
			EpItem& it = eps[i].items[k];
			if (it.sk == sk && (how & (it.events | EPOLLERR | EPOLLHUP)) != 0)
				itemReady(eps[i], it);
		}
	}
	uringWake(sk);
}

// Before a call which can wake up an epoll: the order with the users of that epoll matters.
static void pointEp(int sk)
{
	if (sk < 0)
		return;
	uringPoint(sk, -1);
	for (int i = 0; i < MAXEP; ++i)
		if (eps[i].used)
			for (size_t k = 0; k < eps[i].items.n; ++k)
				if (eps[i].items[k].sk == sk)
				{
					point(eps[i].addr);
					return;
				}
}

static uint16_t portOf(const sockaddr_storage& a)
{
	return a.ss_family == AF_INET6 ? ((const sockaddr_in6&)a).sin6_port : ((const sockaddr_in&)a).sin_port;
}

static void setPort(sockaddr_storage& a, uint16_t p)
{
	if (a.ss_family == AF_INET6) ((sockaddr_in6&)a).sin6_port = p;
	else ((sockaddr_in&)a).sin_port = p;
}

static socklen_t alen(const sockaddr_storage& a) { return a.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); }

static void loopback(sockaddr_storage& a, int family)
{
	memset(&a, 0, sizeof(a));
	a.ss_family = family;
	if (family == AF_INET6) ((sockaddr_in6&)a).sin6_addr = in6addr_loopback;
	else ((sockaddr_in&)a).sin_addr.s_addr = htonl(INADDR_LOOPBACK);
}

static int findListener(const sockaddr_storage& to)
{
	for (int i = 0; i < nSk; ++i)
		if (sks[i].state == KS_LISTEN && portOf(sks[i].local) == portOf(to) && sks[i].family == to.ss_family)
			return i;
	return -1;
}

static void finishConnect(int c)
{
	Sk& s = sks[c];
	if (s.state != KS_CONNECTING)
		return;
	int l = findListener(s.remote);
	if (l < 0 || s.err != 0)
	{
		s.state = KS_CLOSED;
		if (s.err == 0)
			s.err = ECONNREFUSED;
		use(s.addr);
		logf("kernel: socket #%d connect fails, error %d", c, s.err);
		wake(c, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
		return;
	}
	int p = newSk(s.family);
	Sk& q = sks[p];
	q.state = s.state = KS_CONN;
	q.peer = c;
	s.peer = p;
	q.addr = s.addr;
	q.local = s.remote;
	q.remote = s.local;
	q.nonblock = false;
	sks[l].acceptQ.push(p);
	use(s.addr);
	use(sks[l].addr);
	logf("kernel: socket #%d is connected to #%d", c, p);
	wake(c, EPOLLOUT);
	wake(l, EPOLLIN);
}

static void doReset(int i, int e)
{
	Sk& s = sks[i];
	if (s.state != KS_CONN)
		return;
	if (s.fin && s.shutWr)
	{
		// Closed in both directions already, there is nothing to reset.
		return;
	}
	s.state = KS_CLOSED;
	s.err = e == ECONNRESET && s.fin ? EPIPE : e;
	s.reset = true;
	use(s.addr);
	logf("kernel: socket #%d is reset, error %d", i, e);
	wake(i, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}

static void doFin(int i)
{
	Sk& s = sks[i];
	if (s.state != KS_CONN || s.fin)
		return;
	s.fin = true;
	use(s.addr);
	wake(i, EPOLLIN | EPOLLRDHUP | EPOLLHUP);
}

static void skClose(int i)
{
	Sk& s = sks[i];
	KState st = s.state;
	s.state = KS_DEAD;
	s.hasFd = false;
	use(s.addr);
	for (int k = 0; k < MAXEP; ++k)
		if (eps[k].used)
			for (size_t j = 0; j < eps[k].items.n; ++j)
				if (eps[k].items[j].sk == i)
				{
					eps[k].items.removeAt(j);
					break;
				}
	if (st == KS_LISTEN)
	{
		while (s.acceptQ.n > 0)
		{
			int c = s.acceptQ.pop();
			int p = sks[c].peer;
			sks[c].state = KS_DEAD;
			if (p >= 0)
			{
				sks[p].peerGone = true;
				doReset(p, ECONNRESET);
			}
		}
		return;
	}
	if (st == KS_CONNECTING)
	{
		for (size_t k = 0; k < pending.n; ++k)
			if (pending[k] == i) { pending.removeAt(k); break; }
		return;
	}
	if (s.peer < 0)
		return;
	int p = s.peer;
	sks[p].peerGone = true;
	if (st != KS_CONN)
		return;
	if (s.rxLen() > 0)
		doReset(p, ECONNRESET);
	else
		doFin(p);
	// Whoever waits for a free space is not going to get it in the usual way.
	if (sks[p].nospace) { sks[p].nospace = false; wake(p, EPOLLOUT); }
}

///////////////////////////////////////////////////////////////////////////////////////
// Data transfer. Returns bytes or -errno (-EAGAIN: would block).

static long moveIov(const struct iovec* iov, int n, bool out, Vec<uint8_t>& buf, size_t& pos, size_t limit, void* pc)
{
	long done = 0;
	for (int i = 0; i < n && limit > 0; ++i)
	{
		size_t k = iov[i].iov_len < limit ? iov[i].iov_len : limit;
		if (k == 0)
			continue;
		accRange((uptr)iov[i].iov_base, k, !out, pc);
		if (out)
			for (size_t j = 0; j < k; ++j) buf.push(((const uint8_t*)iov[i].iov_base)[j]);
		else
		{
			memcpy(iov[i].iov_base, buf.d + pos, k);
			pos += k;
		}
		done += k;
		limit -= k;
	}
	return done;
}

long kSend(int i, const struct iovec* iov, int n, void* pc)
{
	Sk& s = sks[i];
	size_t len = 0;
	for (int k = 0; k < n; ++k) len += iov[k].iov_len;
	if (s.err) { int e = s.err; s.err = 0; return -e; }
	if (s.state == KS_NEW || s.state == KS_LISTEN) return -EPIPE;
	if (s.state == KS_CONNECTING) return -EAGAIN;
	if (s.shutWr || s.state == KS_CLOSED) return -EPIPE;
	if (len == 0) return 0;
	if (s.peerGone || s.peer < 0)
	{
		// Nobody is there. The data is taken, and then a reset comes.
		for (int k = 0; k < n; ++k) accRange((uptr)iov[k].iov_base, iov[k].iov_len, false, pc);
		doReset(i, s.fin ? EPIPE : ECONNRESET);
		return len;
	}
	Sk& p = sks[s.peer];
	if (p.shutRd)
	{
		// A reader who has shut down its side drops everything with a reset.
		doReset(s.peer, ECONNRESET);
		doReset(i, s.fin ? EPIPE : ECONNRESET);
		return len;
	}
	long space = cap - (long)p.rxLen();
	if (space <= 0) { s.nospace = true; return -EAGAIN; }
	size_t lim = (long)len < space ? len : space;
	if (faultsOn(KF_SEND_ERR) && chooseDev(2) == 1)
	{
		doReset(s.peer, ECONNRESET);
		doReset(i, ECONNRESET);
		s.err = 0;
		return -ECONNRESET;
	}
	if (faultsOn(KF_SEND_EAGAIN) && chooseDev(2) == 1)
	{
		// The space is over right now, but is freed soon.
		s.nospace = true;
		pending.push(~i);
		return -EAGAIN;
	}
	if (lim > 1 && faultsOn(KF_SHORT))
	{
		int c = chooseDev(lim > 2 ? 3 : 2);
		if (c == 1) lim = lim - 1;
		if (c == 2) lim = 1;
	}
	size_t dummy = 0;
	long done = moveIov(iov, n, true, p.rx, dummy, lim, pc);
	if ((size_t)done < len)
		s.nospace = true;
	s.sent += done;
	use(s.addr);
	wake(s.peer, EPOLLIN);
	// A short transfer caused by a fault: the space appears right after.
	if (s.nospace && (long)p.rxLen() < cap)
	{
		s.nospace = false;
		wake(i, EPOLLOUT);
	}
	return done;
}

long kRecv(int i, const struct iovec* iov, int n, void* pc)
{
	Sk& s = sks[i];
	size_t len = 0;
	for (int k = 0; k < n; ++k) len += iov[k].iov_len;
	if (s.state == KS_NEW || s.state == KS_LISTEN) return s.shutRd ? 0 : -ENOTCONN;
	if (s.state == KS_CONNECTING) return s.err ? -s.err : -EAGAIN;
	if (s.rxLen() > 0 && len > 0)
	{
		if (faultsOn(KF_RECV_ERR) && chooseDev(2) == 1)
		{
			if (s.peer >= 0 && !s.peerGone) doReset(s.peer, ECONNRESET);
			doReset(i, ECONNRESET);
			s.err = 0;
			s.rx.clear(); s.rxPos = 0;
			return -ECONNRESET;
		}
		size_t lim = s.rxLen() < len ? s.rxLen() : len;
		if (lim > 1 && faultsOn(KF_SHORT))
		{
			int c = chooseDev(lim > 2 ? 3 : 2);
			if (c == 1) lim = 1;
			if (c == 2) lim = lim - 1;
		}
		long done = moveIov(iov, n, false, s.rx, s.rxPos, lim, pc);
		if (s.rxPos == s.rx.n) { s.rx.clear(); s.rxPos = 0; }
		s.recvd += done;
		use(s.addr);
		if (s.peer >= 0 && !s.peerGone && sks[s.peer].nospace)
		{
			sks[s.peer].nospace = false;
			wake(s.peer, EPOLLOUT);
		}
		return done;
	}
	if (len == 0 || s.fin) return 0;
	if (s.err) { int e = s.err; s.err = 0; return -e; }
	if (s.fin || s.shutRd || s.state == KS_CLOSED) return 0;
	return -EAGAIN;
}

struct WaitArg { int sk; bool out; };
static bool skReadable(void* a)
{
	Sk& s = sks[((WaitArg*)a)->sk];
	return s.rxLen() > 0 || s.fin || s.shutRd || s.err || s.state != KS_CONN;
}
static bool skWritable(void* a)
{
	Sk& s = sks[((WaitArg*)a)->sk];
	return s.state != KS_CONN || s.shutWr || s.peerGone || s.err || (long)sks[s.peer].rxLen() < cap;
}

static long xfer(int fd, const struct iovec* iov, int n, bool out, int flags, void* pc)
{
	Fd* f = getFd(fd, K_SOCK);
	if (f == nullptr) return err(errno);
	int i = f->idx;
	point(sks[i].addr);
	pointEp(i);
	pointEp(sks[i].peer);
	while (true)
	{
		f = getFd(fd, K_SOCK);
		if (f == nullptr || f->idx != i)
			fail("a socket is closed while being used by another thread");
		use(sks[i].addr);
		long rc = out ? kSend(i, iov, n, pc) : kRecv(i, iov, n, pc);
		logf("kernel: %s(%d #%d) = %ld", out ? "send" : "recv", fd, i, rc);
		if (rc >= 0) return ret(rc);
		if (rc != -EAGAIN || sks[i].nonblock || (flags & MSG_DONTWAIT)) return err(-rc);
		WaitArg wa = {i, out};
		blockUntil(out ? skWritable : skReadable, &wa, UINT64_MAX);
	}
}

static bool epReadable(int e)
{
	for (size_t k = 0; k < eps[e].items.n; ++k)
		if (eps[e].items[k].ready && itemMask(eps[e].items[k]) != 0)
			return true;
	return false;
}

struct PollArg { struct pollfd* p; nfds_t n; };
static int pollCheck(struct pollfd* p, nfds_t n, bool set)
{
	int cnt = 0;
	for (nfds_t i = 0; i < n; ++i)
	{
		short r = 0;
		Fd* f = getFd(p[i].fd, K_NONE);
		if (f == nullptr) r = POLLNVAL;
		else if (f->kind == K_EPOLL) r = epReadable(f->idx) ? POLLIN : 0;
		else if (f->kind == K_EVENT) r = f->cnt > 0 ? POLLIN : 0;
		else if (f->kind == K_SOCK)
		{
			uint32_t m = skMask(sks[f->idx]);
			if (m & EPOLLIN) r |= POLLIN;
			if (m & EPOLLOUT) r |= POLLOUT;
			if (m & EPOLLERR) r |= POLLERR;
			if (m & EPOLLHUP) r |= POLLHUP;
		}
		r &= p[i].events | POLLERR | POLLHUP | POLLNVAL;
		if (set) p[i].revents = r;
		cnt += r != 0;
	}
	return cnt;
}
static bool pollPred(void* a) { PollArg* p = (PollArg*)a; return pollCheck(p->p, p->n, false) > 0; }
static bool epPred(void* a) { return epReadable((int)(long)a); }
static bool connPred(void* a) { return sks[(int)(long)a].state != KS_CONNECTING; }
static bool acceptPred(void* a) { Sk& s = sks[(int)(long)a]; return s.state != KS_LISTEN || s.acceptQ.n > 0; }
static bool pumpPred(void*) { return pending.n > 0 || uringPending(); }
static bool evPred(void* a) { return ((Fd*)a)->cnt > 0 || ((Fd*)a)->kind != K_EVENT; }

// Interface for the ring.
Fd* kFd(int fd) { return getFd(fd, K_NONE); }
int kFdKind(int fd) { Fd* f = getFd(fd, K_NONE); return f ? f->kind : K_NONE; }
int kFdIdx(int fd) { return fds[fd].idx; }
void kSetIdx(int fd, int idx) { fds[fd].idx = idx; }
int kSkPeer(int sk) { return sks[sk].peer; }
bool kPumpOn() { return pumpOn; }
bool kPlain() { return plain[curTid()]; }
void kPlainForce(int v) { plainForce = v; }
void kPointEp(int sk) { pointEp(sk); }
uint64_t& kFdCnt(int fd) { return fds[fd].cnt; }
uptr kSkAddr(int sk) { return sks[sk].addr; }
KState kSkState(int sk) { return sks[sk].state; }
int kSkErr(int sk, bool clear) { int e = sks[sk].err; if (clear) sks[sk].err = 0; return e; }
int kNewFd(int kind) { return newFd(kind); }
void kFreeFd(int fd) { fds[fd].kind = K_NONE; }

void kEventWrite(int fd, uint64_t v)
{
	Fd* f = &fds[fd];
	uptr a = KBASE + 0x80000 + fd * 64;
	use(a);
	f->cnt += v;
	for (int i = 0; i < MAXEP; ++i)
		if (eps[i].used)
			for (size_t k = 0; k < eps[i].items.n; ++k)
				if (eps[i].items[k].sk < 0 && eps[i].items[k].evfd == fd)
					itemReady(eps[i], eps[i].items[k]);
}
uptr kEventAddr(int fd) { return KBASE + 0x80000 + fd * 64; }

// Returns a new accepted socket's descriptor or -errno.
long kAccept(int i, sockaddr* addr, socklen_t* len, int flags)
{
	Sk& s = sks[i];
	if (s.state != KS_LISTEN) return -EINVAL;
	if (s.acceptQ.n == 0) return -EAGAIN;
	if (faultsOn(KF_ACCEPT_NET))
	{
		static const int errs[] = {ENETDOWN, EPROTO, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH, ECONNABORTED, EINTR};
		int c = chooseDev(11);
		if (c == 10) return -EINTR;
		if (c > 0)
		{
			int d = s.acceptQ[0];
			s.acceptQ.removeAt(0);
			int p = sks[d].peer;
			sks[d].state = KS_DEAD;
			sks[p].peerGone = true;
			doReset(p, ECONNRESET);
			return -errs[c - 1];
		}
	}
	if (faultsOn(KF_ACCEPT))
	{
		int c = chooseDev(4);
		if (c == 1)
		{
			int d = s.acceptQ[0];
			s.acceptQ.removeAt(0);
			int p = sks[d].peer;
			sks[d].state = KS_DEAD;
			sks[p].peerGone = true;
			doReset(p, ECONNRESET);
			return -ECONNABORTED;
		}
		if (c == 2) return -EINTR;
		if (c == 3) return -EMFILE;
	}
	int c = s.acceptQ[0];
	s.acceptQ.removeAt(0);
	int fd = newFd(K_SOCK);
	fds[fd].idx = c;
	sks[c].hasFd = true;
	sks[c].nonblock = (flags & SOCK_NONBLOCK) != 0;
	use(s.addr);
	use(sks[c].addr);
	if (addr != nullptr)
	{
		socklen_t l = alen(sks[c].remote);
		memcpy(addr, &sks[c].remote, *len < l ? *len : l);
		*len = l;
	}
	return fd;
}

// Starts the connect. 0 - done, -EINPROGRESS - will be finished later, other - error.
long kConnect(int i, const sockaddr* addr, socklen_t len)
{
	Sk& s = sks[i];
	if (s.state == KS_CONNECTING) return -EALREADY;
	// The first call after a successful asynchronous one reports its success.
	if (s.state == KS_CONN) { bool ack = s.connAck; s.connAck = true; return ack ? -EISCONN : 0; }
	if (s.reset && s.connAck) return -EISCONN;
	if (s.state != KS_NEW) { if (s.err) { int e = s.err; s.err = 0; return -e; } return -ECONNABORTED; }
	if (addr->sa_family != s.family) return -EAFNOSUPPORT;
	memset(&s.remote, 0, sizeof(s.remote));
	memcpy(&s.remote, addr, len);
	if (!s.bound) { loopback(s.local, s.family); setPort(s.local, htons(portNext++)); }
	int mode = connMode;
	if (faultsOn(KF_CONNECT))
	{
		int c = chooseDev(5);
		if (c == 1) return -ENETUNREACH;
		if (c == 2) mode = 1;
		if (c == 3) s.err = ETIMEDOUT;
		if (c == 4) s.err = ECONNREFUSED;
	}
	s.state = KS_CONNECTING;
	use(s.addr);
	if (mode == 1)
	{
		finishConnect(i);
		if (s.state == KS_CONN) { s.connAck = true; return 0; }
		int e = s.err;
		s.err = 0;
		return -e;
	}
	if (!pumpOn || !s.nonblock)
		finishConnect(i);
	else
		pending.push(i);
	return -EINPROGRESS;
}

} // namespace rt

using namespace rt;

extern "C" {

void mc_k_faults(int f) { faults = f; }
void mc_k_capacity(long c) { cap = c; }
void mc_k_conn_mode(int m) { connMode = m; }
void mc_k_strict(bool v) { strictFd = v; }
void mc_k_plain(bool v) { plain[curTid()] = v; }
void mc_k_dns(const char* name, int rc, int e, uint64_t latencyNs, int n, const struct sockaddr* const* addrs)
{
	Dns& d = dns[nDns++];
	d.name = name; d.rc = rc; d.err = e; d.latency = latencyNs; d.n = n;
	memset(d.addr, 0, sizeof(d.addr));
	for (int i = 0; i < n; ++i)
		memcpy(&d.addr[i], addrs[i], addrs[i]->sa_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in));
}
uint64_t mc_k_dns_calls(void) { return dnsCalls; }
int mc_k_open(int kind)
{
	int n = 0;
	for (int i = 0; i < MAXFD; ++i)
		n += kind == K_NONE ? fds[i].kind != K_NONE : fds[i].kind == kind;
	return n;
}
void mc_k_pump_on(void) { pumpOn = true; }
void mc_k_pump(void)
{
	pumpOn = true;
	while (true)
	{
		blockUntil(pumpPred, nullptr, UINT64_MAX);
		if (pending.n == 0)
		{
			uringPump();
			continue;
		}
		int i = pending[0];
		int s = i < 0 ? ~i : i;
		point(sks[s].addr);
		if (i >= 0)
		{
			int l = findListener(sks[i].remote);
			if (l >= 0) point(sks[l].addr);
			pointEp(l);
		}
		pointEp(s);
		if (pending.n == 0 || pending[0] != i)
			continue;
		pending.removeAt(0);
		use(sks[s].addr);
		if (i >= 0)
			finishConnect(i);
		else if (sks[s].nospace && sks[s].state == KS_CONN && !sks[s].peerGone && (long)sks[sks[s].peer].rxLen() < cap)
		{
			sks[s].nospace = false;
			wake(s, EPOLLOUT);
		}
	}
}
bool mc_k_pump_step(void)
{
	if (pending.n == 0)
		return false;
	int i = pending[0];
	pending.removeAt(0);
	if (i >= 0)
		finishConnect(i);
	else
	{
		i = ~i;
		use(sks[i].addr);
		if (sks[i].nospace && sks[i].state == KS_CONN && !sks[i].peerGone && (long)sks[sks[i].peer].rxLen() < cap)
		{
			sks[i].nospace = false;
			wake(i, EPOLLOUT);
		}
	}
	return true;
}
void mc_k_reset(int fd)
{
	Fd* f = getFd(fd, K_SOCK);
	int i = f->idx;
	point(sks[i].addr);
	int p = sks[i].peer;
	if (p >= 0) pointEp(p);
	sks[i].state = KS_CLOSED;
	if (p >= 0) { doReset(p, ECONNRESET); }
}
int mc_k_opt(int fd, int level, int name)
{
	Fd* f = getFd(fd, K_SOCK);
	if (f == nullptr) return -2;
	Sk& s = sks[f->idx];
	for (size_t i = 0; i < s.opts.n; ++i)
		if (s.opts[i].level == level && s.opts[i].name == name)
			return s.opts[i].val;
	return -1;
}
int mc_k_state(int fd) { Fd* f = getFd(fd, K_SOCK); return f == nullptr ? -1 : (int)sks[f->idx].state; }

int socket(int family, int type, int)
{
	if (!inFiber()) return (int)raw(SYS_socket, family, type, 0);
	if (family != AF_INET && family != AF_INET6) return err(EAFNOSUPPORT);
	point(fdTabAddr());
	if (faultsOn(KF_SOCKET) && chooseDev(2) == 1) return err(EMFILE);
	int fd = newFd(K_SOCK);
	int i = newSk(family);
	fds[fd].idx = i;
	sks[i].hasFd = true;
	sks[i].nonblock = (type & SOCK_NONBLOCK) != 0;
	use(fdTabAddr());
	logf("kernel: socket() = %d #%d", fd, i);
	return (int)ret(fd);
}

int close(int fd)
{
	if (!inFiber()) return (int)raw(SYS_close, fd);
	Fd* f = useFd(fd, K_NONE);
	if (f == nullptr)
		fail("close of a not open descriptor %d", fd);
	point(fdTabAddr());
	if (f->kind == K_SOCK)
	{
		point(sks[f->idx].addr);
		pointEp(f->idx);
		pointEp(sks[f->idx].peer);
	}
	f = useFd(fd, K_NONE);
	if (f == nullptr)
		fail("close of a not open descriptor %d", fd);
	logf("kernel: close(%d)", fd);
	int kind = f->kind, idx = f->idx;
	f->kind = K_NONE;
	use(fdTabAddr());
	if (kind == K_SOCK)
		skClose(idx);
	else if (kind == K_EPOLL)
	{
		eps[idx].used = false;
		eps[idx].items.clear();
	}
	else if (kind == K_EVENT)
	{
		for (int i = 0; i < MAXEP; ++i)
			for (size_t k = 0; eps[i].used && k < eps[i].items.n; ++k)
				if (eps[i].items[k].sk < 0 && eps[i].items[k].evfd == fd)
					eps[i].items.removeAt(k--);
	}
	return (int)ret(0);
}

int connect(int fd, const struct sockaddr* addr, socklen_t len)
{
	if (!inFiber()) return (int)raw(SYS_connect, fd, (long)addr, len);
	Fd* f = useFd(fd, K_SOCK);
	if (f == nullptr) return err(errno);
	int i = f->idx;
	accRange((uptr)addr, len, false, PC);
	point(sks[i].addr);
	sockaddr_storage to;
	memset(&to, 0, sizeof(to));
	memcpy(&to, addr, len);
	int l = findListener(to);
	if (l >= 0) { point(sks[l].addr); pointEp(l); }
	long rc = kConnect(i, addr, len);
	logf("kernel: connect(%d #%d) = %ld", fd, i, rc);
	if (rc == 0) return (int)ret(0);
	if (rc != -EINPROGRESS || sks[i].nonblock) return err(-rc);
	blockUntil(connPred, (void*)(long)i, UINT64_MAX);
	use(sks[i].addr);
	if (sks[i].state == KS_CONN) { sks[i].connAck = true; return (int)ret(0); }
	int e = sks[i].err;
	sks[i].err = 0;
	return err(e);
}

int bind(int fd, const struct sockaddr* addr, socklen_t len)
{
	if (!inFiber()) return (int)raw(SYS_bind, fd, (long)addr, len);
	Fd* f = useFd(fd, K_SOCK);
	if (f == nullptr) return err(errno);
	Sk& s = sks[f->idx];
	point(fdTabAddr());
	if (s.bound || s.state != KS_NEW) return err(EINVAL);
	sockaddr_storage a;
	memset(&a, 0, sizeof(a));
	memcpy(&a, addr, len);
	if (a.ss_family != s.family) return err(EAFNOSUPPORT);
	if (portOf(a) == 0)
		setPort(a, htons(portNext++));
	else
		for (int i = 0; i < nSk; ++i)
			if (sks[i].hasFd && (sks[i].state == KS_LISTEN || (sks[i].bound && sks[i].state == KS_NEW)) && portOf(sks[i].local) == portOf(a))
				return err(EADDRINUSE);
	s.local = a;
	s.bound = true;
	use(fdTabAddr());
	return (int)ret(0);
}

int listen(int fd, int backlog)
{
	if (!inFiber()) return (int)raw(SYS_listen, fd, backlog);
	Fd* f = useFd(fd, K_SOCK);
	if (f == nullptr) return err(errno);
	Sk& s = sks[f->idx];
	point(s.addr);
	if (s.state != KS_NEW) return err(EINVAL);
	if (!s.bound) { loopback(s.local, s.family); setPort(s.local, htons(portNext++)); s.bound = true; }
	s.state = KS_LISTEN;
	s.backlog = backlog;
	use(s.addr);
	return (int)ret(0);
}

int accept4(int fd, struct sockaddr* addr, socklen_t* len, int flags)
{
	if (!inFiber()) return (int)raw(SYS_accept4, fd, (long)addr, (long)len, flags);
	Fd* f = useFd(fd, K_SOCK);
	if (f == nullptr) return err(errno);
	int i = f->idx;
	point(sks[i].addr);
	while (true)
	{
		use(sks[i].addr);
		long rc = kAccept(i, addr, len, flags);
		logf("kernel: accept(%d #%d) = %ld", fd, i, rc);
		if (rc >= 0) return (int)ret(rc);
		if (rc != -EAGAIN || sks[i].nonblock) return err(-rc);
		blockUntil(acceptPred, (void*)(long)i, UINT64_MAX);
	}
}
int accept(int fd, struct sockaddr* addr, socklen_t* len) { return accept4(fd, addr, len, 0); }

int shutdown(int fd, int how)
{
	if (!inFiber()) return (int)raw(SYS_shutdown, fd, how);
	Fd* f = useFd(fd, K_SOCK);
	if (f == nullptr) return err(errno);
	int i = f->idx;
	Sk& s = sks[i];
	point(s.addr);
	pointEp(i);
	pointEp(s.peer);
	use(s.addr);
	logf("kernel: shutdown(%d #%d) state %d", fd, i, (int)s.state);
	if (s.state == KS_CONNECTING)
	{
		for (size_t k = 0; k < pending.n; ++k)
			if (pending[k] == i) { pending.removeAt(k); break; }
		s.state = KS_CLOSED;
		s.err = ECONNRESET;
		wake(i, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
		return (int)ret(0);
	}
	if (s.state != KS_CONN || (s.fin && s.shutWr))
	{
		s.shutRd |= how != SHUT_WR;
		s.shutWr |= how != SHUT_RD;
		return err(ENOTCONN);
	}
	s.connAck = true;
	if (how == SHUT_RD || how == SHUT_RDWR) s.shutRd = true;
	if (how == SHUT_WR || how == SHUT_RDWR)
	{
		s.shutWr = true;
		if (s.peer >= 0 && !s.peerGone) doFin(s.peer);
	}
	wake(i, EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP);
	return (int)ret(0);
}

int getsockname(int fd, struct sockaddr* addr, socklen_t* len)
{
	if (!inFiber()) return (int)raw(SYS_getsockname, fd, (long)addr, (long)len);
	Fd* f = useFd(fd, K_SOCK);
	if (f == nullptr) return err(errno);
	Sk& s = sks[f->idx];
	sockaddr_storage a = s.local;
	if (a.ss_family == 0) a.ss_family = s.family;
	socklen_t l = alen(a);
	memcpy(addr, &a, *len < l ? *len : l);
	*len = l;
	return (int)ret(0);
}

int getpeername(int fd, struct sockaddr* addr, socklen_t* len)
{
	if (!inFiber()) return (int)raw(SYS_getpeername, fd, (long)addr, (long)len);
	Fd* f = useFd(fd, K_SOCK);
	if (f == nullptr) return err(errno);
	Sk& s = sks[f->idx];
	if (s.state != KS_CONN) return err(ENOTCONN);
	socklen_t l = alen(s.remote);
	memcpy(addr, &s.remote, *len < l ? *len : l);
	*len = l;
	return (int)ret(0);
}

int setsockopt(int fd, int level, int name, const void* val, socklen_t len)
{
	if (!inFiber()) return (int)raw(SYS_setsockopt, fd, level, name, (long)val, len);
	Fd* f = useFd(fd, K_SOCK);
	if (f == nullptr) return err(errno);
	Sk& s = sks[f->idx];
	if (len < sizeof(int)) return err(EINVAL);
	int v = *(const int*)val;
	if (faultsOn(KF_OPT) && chooseDev(2) == 1) return err(ENOBUFS);
	if (level == IPPROTO_TCP)
	{
		if (name == TCP_KEEPIDLE && (v < 1 || v > 32767)) return err(EINVAL);
		if (name == TCP_KEEPINTVL && (v < 1 || v > 32767)) return err(EINVAL);
		if (name == TCP_KEEPCNT && (v < 1 || v > 127)) return err(EINVAL);
		if (name == TCP_USER_TIMEOUT && v < 0) return err(EINVAL);
		if (name == TCP_NODELAY) v = v != 0;
	}
	else if (level == SOL_SOCKET)
	{
		if (name == SO_KEEPALIVE || name == SO_REUSEADDR) v = v != 0;
	}
	else if (level == IPPROTO_IPV6)
	{
		if (s.family != AF_INET6) return err(ENOPROTOOPT);
		if (name == IPV6_V6ONLY) { if (s.bound) return err(EINVAL); v = v != 0; }
	}
	else
		return err(ENOPROTOOPT);
	for (size_t i = 0; i < s.opts.n; ++i)
		if (s.opts[i].level == level && s.opts[i].name == name)
		{
			s.opts[i].val = v;
			return (int)ret(0);
		}
	Opt o = {level, name, v};
	s.opts.push(o);
	return (int)ret(0);
}

int getsockopt(int fd, int level, int name, void* val, socklen_t* len)
{
	if (!inFiber()) return (int)raw(SYS_getsockopt, fd, level, name, (long)val, (long)len);
	Fd* f = useFd(fd, K_SOCK);
	if (f == nullptr) return err(errno);
	Sk& s = sks[f->idx];
	if (level == SOL_SOCKET && name == SO_ERROR)
	{
		point(s.addr);
		use(s.addr);
		*(int*)val = s.err;
		s.err = 0;
		*len = sizeof(int);
		return (int)ret(0);
	}
	int v = mc_k_opt(fd, level, name);
	*(int*)val = v < 0 ? 0 : v;
	*len = sizeof(int);
	return (int)ret(0);
}

ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
	if (!inFiber()) return raw(SYS_sendmsg, fd, (long)m, flags);
	accRange((uptr)m->msg_iov, m->msg_iovlen * sizeof(iovec), false, PC);
	return xfer(fd, m->msg_iov, m->msg_iovlen, true, flags, PC);
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags)
{
	if (!inFiber()) return raw(SYS_recvmsg, fd, (long)m, flags);
	accRange((uptr)m->msg_iov, m->msg_iovlen * sizeof(iovec), false, PC);
	return xfer(fd, m->msg_iov, m->msg_iovlen, false, flags, PC);
}
ssize_t send(int fd, const void* b, size_t n, int flags)
{
	if (!inFiber()) return raw(SYS_sendto, fd, (long)b, n, flags, 0, 0);
	iovec v = {(void*)b, n};
	return xfer(fd, &v, 1, true, flags, PC);
}
ssize_t recv(int fd, void* b, size_t n, int flags)
{
	if (!inFiber()) return raw(SYS_recvfrom, fd, (long)b, n, flags, 0, 0);
	iovec v = {b, n};
	return xfer(fd, &v, 1, false, flags, PC);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
	if (!inFiber()) return raw(SYS_writev, fd, (long)v, n);
	return xfer(fd, v, n, true, 0, PC);
}
ssize_t readv(int fd, const struct iovec* v, int n)
{
	if (!inFiber()) return raw(SYS_readv, fd, (long)v, n);
	return xfer(fd, v, n, false, 0, PC);
}

int open(const char* path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	int mode = va_arg(ap, int);
	va_end(ap);
	if (!inFiber()) return (int)raw(SYS_openat, AT_FDCWD, (long)path, flags, mode);
	point(fdTabAddr());
	int fd = newFd(K_FILE);
	use(fdTabAddr());
	return (int)ret(fd);
}

ssize_t read(int fd, void* b, size_t n)
{
	if (!inFiber()) return raw(SYS_read, fd, (long)b, n);
	Fd* f = useFd(fd, K_NONE);
	if (f == nullptr) return err(errno);
	if (f->kind == K_FILE)
	{
		const char text[] = "Linux version 6.8.0 (mc) #1 SMP\n";
		size_t k = n < sizeof(text) - 1 ? n : sizeof(text) - 1;
		memcpy(b, text, k);
		return ret(k);
	}
	if (f->kind == K_EVENT)
	{
		uptr a = kEventAddr(fd);
		point(a);
		use(a);
		if (f->cnt == 0)
		{
			if (f->nonblock) return err(EAGAIN);
			blockUntil(evPred, f, UINT64_MAX);
			use(a);
		}
		accRange((uptr)b, 8, true, PC);
		*(uint64_t*)b = f->cnt;
		f->cnt = 0;
		return ret(8);
	}
	iovec v = {b, n};
	return xfer(fd, &v, 1, false, 0, PC);
}
ssize_t write(int fd, const void* b, size_t n)
{
	if (!inFiber()) return raw(SYS_write, fd, (long)b, n);
	Fd* f = useFd(fd, K_NONE);
	if (f == nullptr) return err(errno);
	if (f->kind == K_EVENT)
		return eventfd_write(fd, *(const uint64_t*)b) == 0 ? 8 : -1;
	iovec v = {(void*)b, n};
	return xfer(fd, &v, 1, true, 0, PC);
}

int fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (!inFiber()) return (int)raw(SYS_fcntl, fd, cmd, arg);
	Fd* f = useFd(fd, K_NONE);
	if (f == nullptr) return err(errno);
	bool* nb = f->kind == K_SOCK ? &sks[f->idx].nonblock : &f->nonblock;
	if (cmd == F_GETFL) return (int)ret(*nb ? O_RDWR | O_NONBLOCK : O_RDWR);
	if (cmd == F_SETFL) { *nb = (arg & O_NONBLOCK) != 0; return (int)ret(0); }
	return err(EINVAL);
}

int eventfd(unsigned v, int flags)
{
	if (!inFiber()) return (int)raw(SYS_eventfd2, v, flags);
	point(fdTabAddr());
	int fd = newFd(K_EVENT);
	fds[fd].cnt = v;
	fds[fd].nonblock = (flags & EFD_NONBLOCK) != 0;
	use(fdTabAddr());
	return (int)ret(fd);
}
int eventfd_write(int fd, eventfd_t v)
{
	Fd* f = useFd(fd, K_EVENT);
	if (f == nullptr) return err(errno);
	point(kEventAddr(fd));
	uringPoint(-1, fd);
	for (int i = 0; i < MAXEP; ++i)
		if (eps[i].used)
			for (size_t k = 0; k < eps[i].items.n; ++k)
				if (eps[i].items[k].sk < 0 && eps[i].items[k].evfd == fd)
					point(eps[i].addr);
	if (useFd(fd, K_EVENT) == nullptr) return err(EBADF);
	kEventWrite(fd, v);
	uringWakeEvent(fd);
	logf("kernel: eventfd_write(%d)", fd);
	return (int)ret(0);
}
int eventfd_read(int fd, eventfd_t* v) { return read(fd, v, 8) == 8 ? 0 : -1; }

int epoll_create1(int)
{
	point(fdTabAddr());
	int fd = newFd(K_EPOLL);
	int i = 0;
	while (i < MAXEP && eps[i].used) ++i;
	if (i == MAXEP) fail("simulated kernel: too many epolls");
	eps[i].used = true;
	eps[i].seq = 0;
	eps[i].items.clear();
	eps[i].addr = KBASE + 0x40000 + i * 64;
	fds[fd].idx = i;
	use(fdTabAddr());
	return (int)ret(fd);
}

int epoll_ctl(int epfd, int op, int fd, struct epoll_event* ev)
{
	Fd* e = useFd(epfd, K_EPOLL);
	if (e == nullptr) return err(EBADF);
	Ep& ep = eps[e->idx];
	Fd* f = useFd(fd, K_NONE);
	if (f == nullptr) return err(EBADF);
	if (f->kind == K_SOCK) point(sks[f->idx].addr);
	point(ep.addr);
	f = useFd(fd, K_NONE);
	if (f == nullptr) return err(EBADF);
	if (f->kind == K_SOCK) use(sks[f->idx].addr);
	use(ep.addr);
	logf("kernel: epoll_ctl(%d, %s, %d)", epfd, op == EPOLL_CTL_ADD ? "ADD" : "DEL", fd);
	size_t pos = 0;
	while (pos < ep.items.n && !(ep.items[pos].fd == fd)) ++pos;
	if (op == EPOLL_CTL_DEL)
	{
		if (pos == ep.items.n) return err(ENOENT);
		ep.items.removeAt(pos);
		return (int)ret(0);
	}
	if (op == EPOLL_CTL_ADD)
	{
		if (pos != ep.items.n) return err(EEXIST);
		EpItem it;
		memset(&it, 0, sizeof(it));
		it.fd = fd;
		it.sk = f->kind == K_SOCK ? f->idx : -1;
		it.evfd = f->kind == K_EVENT ? fd : -1;
		it.events = ev->events;
		it.data = ev->data.u64;
		ep.items.push(it);
	}
	else
	{
		if (pos == ep.items.n) return err(ENOENT);
		ep.items[pos].events = ev->events;
		ep.items[pos].data = ev->data.u64;
	}
	if (itemMask(ep.items[pos]) != 0)
		itemReady(ep, ep.items[pos]);
	return (int)ret(0);
}

int epoll_wait(int epfd, struct epoll_event* evs, int max, int timeout)
{
	Fd* e = useFd(epfd, K_EPOLL);
	if (e == nullptr) return err(EBADF);
	int ei = e->idx;
	Ep& ep = eps[ei];
	point(ep.addr);
	if (timeout != 0 && !epReadable(ei))
		blockUntil(epPred, (void*)(long)ei, timeout < 0 ? UINT64_MAX : nowNs() + timeout * 1000000ull);
	use(ep.addr);
	int n = 0;
	while (n < max)
	{
		size_t best = SIZE_MAX;
		for (size_t k = 0; k < ep.items.n; ++k)
			if (ep.items[k].ready && (best == SIZE_MAX || ep.items[k].seq < ep.items[best].seq))
				best = k;
		if (best == SIZE_MAX)
			break;
		EpItem& it = ep.items[best];
		uint32_t m = itemMask(it);
		if ((it.events & EPOLLET) == 0 && m != 0)
			it.seq = ep.seq++;
		else
			it.ready = false;
		if (m == 0)
			continue;
		if (it.sk >= 0) use(sks[it.sk].addr);
		evs[n].events = m;
		evs[n].data.u64 = it.data;
		observe(m);
		logf("kernel: epoll_wait -> fd %d events %x", it.fd, m);
		++n;
	}
	return (int)ret(n);
}

int poll(struct pollfd* p, nfds_t n, int timeout)
{
	if (!inFiber()) return (int)raw(SYS_poll, (long)p, n, timeout);
	for (nfds_t i = 0; i < n; ++i)
	{
		Fd* f = getFd(p[i].fd, K_NONE);
		if (f == nullptr) continue;
		uptr a = f->kind == K_EPOLL ? eps[f->idx].addr : f->kind == K_SOCK ? sks[f->idx].addr : kEventAddr(p[i].fd);
		point(a);
	}
	PollArg a = {p, n};
	uint64_t dl = timeout < 0 ? UINT64_MAX : nowNs() + timeout * 1000000ull;
	if (faultsOn(KF_EINTR) && timeout != 0 && chooseDev(2) == 1) return err(EINTR);
	if (timeout != 0)
		blockUntil(pollPred, &a, dl);
	for (nfds_t i = 0; i < n; ++i)
	{
		Fd* f = getFd(p[i].fd, K_NONE);
		if (f == nullptr) continue;
		use(f->kind == K_EPOLL ? eps[f->idx].addr : f->kind == K_SOCK ? sks[f->idx].addr : kEventAddr(p[i].fd));
	}
	int rc = pollCheck(p, n, true);
	if (rc == 0) observe(nowNs());
	logf("kernel: poll = %d", rc);
	return (int)ret(rc);
}

int getaddrinfo(const char* node, const char*, const struct addrinfo*, struct addrinfo** res)
{
	if (!inFiber()) return EAI_FAIL;
	*res = nullptr;
	point(KBASE + 0x20);
	use(KBASE + 0x20);
	++dnsCalls;
	for (int i = 0; i < nDns; ++i)
	{
		Dns& d = dns[i];
		if (strcmp(d.name, node) != 0)
			continue;
		if (d.latency > 0)
			blockUntil(nullptr, nullptr, nowNs() + d.latency);
		observe(nowNs());
		logf("kernel: getaddrinfo(%s) = %d", node, d.rc);
		if (d.rc != 0)
		{
			errno = d.err;
			return d.rc;
		}
		struct addrinfo* tail = nullptr;
		for (int k = 0; k < d.n; ++k)
		{
			struct Mem { addrinfo ai; sockaddr_storage a; };
			Mem* m = new Mem();
			memset((void*)m, 0, sizeof(*m));
			m->a = d.addr[k];
			m->ai.ai_family = m->a.ss_family;
			m->ai.ai_socktype = SOCK_STREAM;
			m->ai.ai_addr = (sockaddr*)&m->a;
			m->ai.ai_addrlen = alen(m->a);
			if (tail) tail->ai_next = &m->ai;
			else *res = &m->ai;
			tail = &m->ai;
		}
		return 0;
	}
	logf("kernel: getaddrinfo(%s) is unknown", node);
	return EAI_NONAME;
}
void freeaddrinfo(struct addrinfo* a)
{
	while (a != nullptr)
	{
		struct addrinfo* n = a->ai_next;
		operator delete((void*)a);
		a = n;
	}
}

} // extern C
