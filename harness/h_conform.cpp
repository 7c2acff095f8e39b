// Conformance of the simulated kernel (engine/kern.cpp, engine/uring.cpp): the same sequences of calls are executed on the
// real kernel (this file compiled with NATIVE) and on the simulated one, all the visible results must be equal.
#include <errno.h>
#include <initializer_list>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <unistd.h>
#if defined(CONFORM_URING) && defined(NATIVE)
#include <liburing.h>
#elif defined(CONFORM_URING)
#include "liburing.h"
#endif
#ifndef NATIVE
#include "kern.h"
#include "mc.h"
#endif

namespace {

struct World
{
	int l = -1, a = -1, b = -1, ep = -1;
	sockaddr_in addr;
	char out[512];
	int n = 0;
#ifdef CONFORM_URING
	io_uring ring;
	int ev = -1;
	bool busy[5] = {};
	char rbuf[8], sbuf[8];
	msghdr rm, sm;
	iovec ri, si;
	sockaddr_in acc;
	socklen_t accLen;
#endif
};

void put(World& w, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if (w.n < 480)
		w.n += vsnprintf(w.out + w.n, sizeof(w.out) - w.n, fmt, ap);
	va_end(ap);
}

long res(long rc) { return rc < 0 ? -errno : rc; }

void breakConn(int fd)
{
#ifdef NATIVE
	linger g = {1, 0};
	setsockopt(fd, SOL_SOCKET, SO_LINGER, &g, sizeof(g));
	close(fd);
#else
	mc_k_reset(fd);
	close(fd);
#endif
}

void pause1()
{
#ifdef NATIVE
	// Everything above is synchronous over the loopback, but can be deferred to a softirq.
	sched_yield();
#endif
}

long acceptB(World& w)
{
	if (w.b >= 0)
		return -1000;
	long rc = res(accept4(w.l, nullptr, nullptr, SOCK_NONBLOCK));
	if (rc >= 0)
	{
		w.b = (int)rc;
		rc = 0;
	}
	return rc;
}

void openWorld(World& w, int start)
{
	memset(&w.addr, 0, sizeof(w.addr));
	w.addr.sin_family = AF_INET;
	w.addr.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	w.l = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
	bind(w.l, (sockaddr*)&w.addr, sizeof(w.addr));
	socklen_t len = sizeof(w.addr);
	getsockname(w.l, (sockaddr*)&w.addr, &len);
	listen(w.l, 8);
	w.a = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
#ifdef CONFORM_URING
	io_uring_params p;
	memset(&p, 0, sizeof(p));
	if (io_uring_queue_init_params(16, &w.ring, &p) != 0)
	{
		fprintf(stderr, "no io_uring\n");
		exit(3);
	}
	w.ev = eventfd(0, EFD_NONBLOCK);
	io_uring_register_eventfd(&w.ring, w.ev);
#else
	w.ep = epoll_create1(0);
#endif
	if (start)
	{
		connect(w.a, (sockaddr*)&w.addr, sizeof(w.addr));
		pause1();
		acceptB(w);
	}
}

void closeWorld(World& w)
{
#ifdef CONFORM_URING
#ifndef NATIVE
	// The simulated ring complains about lost operations.
	io_uring_sqe* s;
	for (int fd : {w.a, w.l})
	{
		s = io_uring_get_sqe(&w.ring);
		io_uring_prep_rw(IORING_OP_ASYNC_CANCEL, s, fd, nullptr, 0, 0);
		s->cancel_flags = 3;
		io_uring_sqe_set_data(s, (void*)99);
	}
	io_uring_submit(&w.ring);
#endif
	io_uring_unregister_eventfd(&w.ring);
	io_uring_queue_exit(&w.ring);
	close(w.ev);
#else
	close(w.ep);
#endif
	if (w.b >= 0)
		breakConn(w.b);
	breakConn(w.a);
	close(w.l);
}

long sendByte(int fd)
{
	char c = 'x';
	return fd < 0 ? -1000 : res(send(fd, &c, 1, MSG_NOSIGNAL));
}
long recvBytes(int fd, int n)
{
	char c[8];
	return fd < 0 ? -1000 : res(recv(fd, c, n, 0));
}

// What the peer and the listener do.
const int COMMON = 6;
long commonOp(World& w, int op)
{
	long rc = -1000;
	switch (op)
	{
	case 0: return acceptB(w);
	case 1: return sendByte(w.b);
	case 2: return recvBytes(w.b, 1);
	case 3: return w.b < 0 ? -1000 : res(shutdown(w.b, SHUT_WR));
	case 4:
		if (w.b >= 0)
		{
			breakConn(w.b);
			w.b = -1;
			rc = 0;
		}
		return rc;
	case 5:
		if (w.b >= 0)
		{
			rc = res(close(w.b));
			w.b = -1;
		}
		return rc;
	}
	return rc;
}

#ifndef CONFORM_URING

const int OPS = COMMON + 9;
void doOp(World& w, int op)
{
	long rc = -1000;
	if (op < COMMON)
		rc = commonOp(w, op);
	else switch (op - COMMON)
	{
	case 0: rc = res(connect(w.a, (sockaddr*)&w.addr, sizeof(w.addr))); break;
	case 1: rc = sendByte(w.a); break;
	case 2: rc = recvBytes(w.a, 1); break;
	case 3: rc = recvBytes(w.a, 4); break;
	case 4: rc = res(shutdown(w.a, SHUT_WR)); break;
	case 5: rc = res(shutdown(w.a, SHUT_RDWR)); break;
	case 6:
	{
		epoll_event e;
		memset(&e, 0, sizeof(e));
		e.events = EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLET;
		rc = res(epoll_ctl(w.ep, EPOLL_CTL_ADD, w.a, &e));
		break;
	}
	case 7:
	{
		epoll_event e[2];
		rc = epoll_wait(w.ep, e, 2, 0);
		if (rc == 1)
			rc = e[0].events;
		break;
	}
	case 8:
	{
		int err = 0;
		socklen_t len = sizeof(err);
		rc = res(getsockopt(w.a, SOL_SOCKET, SO_ERROR, &err, &len));
		if (rc == 0)
			rc = err;
		break;
	}
	}
	put(w, "%d:%ld ", op, rc);
}

#else

enum { R_CONNECT, R_RECV, R_SEND, R_ACCEPT, R_CANCEL, R_COUNT };

const int OPS = COMMON + 6;
void doOp(World& w, int op)
{
	long rc = 0;
	if (op < COMMON)
		rc = commonOp(w, op);
	else if (op - COMMON < R_COUNT)
	{
		int r = op - COMMON;
		if (w.busy[r])
			rc = -1000;
		else
		{
			io_uring_sqe* s = io_uring_get_sqe(&w.ring);
			switch (r)
			{
			case R_CONNECT: io_uring_prep_connect(s, w.a, (sockaddr*)&w.addr, sizeof(w.addr)); break;
			case R_RECV:
				memset(&w.rm, 0, sizeof(w.rm));
				w.ri.iov_base = w.rbuf;
				w.ri.iov_len = 2;
				w.rm.msg_iov = &w.ri;
				w.rm.msg_iovlen = 1;
				io_uring_prep_recvmsg(s, w.a, &w.rm, 0);
				break;
			case R_SEND:
				memset(&w.sm, 0, sizeof(w.sm));
				w.si.iov_base = w.sbuf;
				w.si.iov_len = 1;
				w.sm.msg_iov = &w.si;
				w.sm.msg_iovlen = 1;
				io_uring_prep_sendmsg(s, w.a, &w.sm, MSG_NOSIGNAL);
				break;
			case R_ACCEPT:
				w.accLen = sizeof(w.acc);
				io_uring_prep_accept(s, w.l, (sockaddr*)&w.acc, &w.accLen, SOCK_NONBLOCK);
				break;
			case R_CANCEL:
				io_uring_prep_rw(IORING_OP_ASYNC_CANCEL, s, w.a, nullptr, 0, 0);
				s->cancel_flags = 3;
				break;
			}
			io_uring_sqe_set_data(s, (void*)(uintptr_t)(1 + r));
			w.busy[r] = true;
			rc = io_uring_submit(&w.ring);
		}
	}
	else
	{
		pause1();
		pollfd p;
		memset(&p, 0, sizeof(p));
		p.fd = w.ev;
		p.events = POLLIN;
		int sig = poll(&p, 1, 0);
		uint64_t v;
		if (sig == 1 && read(w.ev, &v, sizeof(v)) != sizeof(v))
			sig = -1;
		io_uring_cqe* c[8];
		unsigned n = io_uring_peek_batch_cqe(&w.ring, c, 8);
		long got[R_COUNT];
		bool has[R_COUNT] = {};
		for (unsigned i = 0; i < n; ++i)
		{
			int r = (int)(uintptr_t)io_uring_cqe_get_data(c[i]) - 1;
			got[r] = c[i]->res;
			has[r] = true;
			w.busy[r] = false;
		}
		io_uring_cq_advance(&w.ring, n);
		put(w, "[%d", sig);
		for (int r = 0; r < R_COUNT; ++r)
		{
			if (!has[r])
				continue;
			if (r == R_ACCEPT && got[r] >= 0)
			{
				if (w.b < 0)
					w.b = (int)got[r];
				else
					breakConn((int)got[r]);
				got[r] = 0;
			}
			put(w, " %d=%ld", r, got[r]);
		}
		put(w, "]");
		return;
	}
	put(w, "%d:%ld ", op, rc);
}

#endif

uint32_t hashOf(const char* s)
{
	uint32_t h = 2166136261u;
	for (; *s; ++s)
		h = (h ^ (uint8_t)*s) * 16777619u;
	return h;
}

uint32_t runOne(int start, const int* ops, int depth, bool print)
{
	World w;
	openWorld(w, start);
	for (int i = 0; i < depth; ++i)
	{
		doOp(w, ops[i]);
		pause1();
	}
	closeWorld(w);
	if (print)
		printf("%s\n", w.out);
	return hashOf(w.out);
}

}

#ifdef NATIVE

// conform DEPTH > table, or conform START OP OP ... to print.
int main(int argc, char** argv)
{
	int ops[16];
	if (argc > 2)
	{
		for (int i = 2; i < argc; ++i)
			ops[i - 2] = atoi(argv[i]);
		runOne(atoi(argv[1]), ops, argc - 2, true);
		return 0;
	}
	int depth = atoi(argv[1]);
	long total = 2;
	for (int i = 0; i < depth; ++i)
		total *= OPS;
	for (long i = 0; i < total; ++i)
	{
		long x = i / 2;
		for (int k = 0; k < depth; ++k, x /= OPS)
			ops[k] = (int)(x % OPS);
		printf("%u,\n", runOne((int)(i % 2), ops, depth, false));
	}
	return 0;
}

#else

static const uint32_t gTable[] = {
#include CONFORM_TABLE
};

MC_SCENARIO(conform)
{
	long total = sizeof(gTable) / sizeof(gTable[0]);
	int depth = 0;
	for (long t = 2; t < total; t *= OPS)
		++depth;
	int ops[16];
	int start = mc_choose(2);
	long idx = 0, mul = 2;
	for (int i = 0; i < depth; ++i, mul *= OPS)
	{
		ops[i] = mc_choose(OPS);
		idx += mul * ops[i];
	}
	idx += start;
	mc_serial_begin();
	World w;
	openWorld(w, start);
	for (int i = 0; i < depth; ++i)
		doOp(w, ops[i]);
	closeWorld(w);
	if (hashOf(w.out) == gTable[idx])
		mc_outcome("equal");
	else
		mc_outcome("differs: start %d, %s", start, w.out);
}

#endif
