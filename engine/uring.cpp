// Simulated io_uring. An operation is tried at its submission; when it can't be finished, it waits for its descriptor and
// is tried again when that becomes ready: right away, or later by the network thread when there is one (mc_k_pump()).
// Completions are added to the queue of the ring, which is never full, and signal the registered eventfd.
#include "rt.h"
#include "kern.h"
#include <linux/io_uring.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

struct io_uring { int ring_fd; };

namespace rt {

static const uptr RBASE = 0x700000000000ull + 0xC0000;
static const int MAXRING = 4;
static const unsigned MAXSQ = 1024;
static const unsigned MAXCQ = 256;

struct Op
{
	uint64_t id, data;
	int opcode, fd, sk, ev;
	uptr buf, lenp;
	int flags;
	iovec iov[16];
	int iovN;
	bool started, ready, plain;
};
struct Ring
{
	bool used;
	uptr addr;
	int evfd;
	unsigned entries, nSq;
	unsigned cqHead, cqTail;
	io_uring_sqe sq[MAXSQ];
	io_uring_cqe cq[MAXCQ];
	Vec<Op> ops;
	void* pc;
};
static Ring rings[MAXRING];
static uint64_t nextOp;
static bool inRun;
static bool anyUsed;

// From kern.cpp.
int kFdKind(int fd);
int kFdIdx(int fd);
void kSetIdx(int fd, int idx);
uint64_t& kFdCnt(int fd);
uptr kSkAddr(int sk);
int kSkPeer(int sk);
KState kSkState(int sk);
int kSkErr(int sk, bool clear);
int kNewFd(int kind);
void kFreeFd(int fd);
void kEventWrite(int fd, uint64_t v);
uptr kEventAddr(int fd);
long kSend(int i, const struct iovec* iov, int n, void* pc);
long kRecv(int i, const struct iovec* iov, int n, void* pc);
long kAccept(int i, sockaddr* addr, socklen_t* len, int flags);
long kConnect(int i, const sockaddr* addr, socklen_t len);
bool kPumpOn();
bool kPlain();
void kPlainForce(int v);
void kPointEp(int sk);

static void use(uptr a) { effRead(a, true); effWrite(a, true, true); }

void uringReset()
{
	if (anyUsed)
		for (int i = 0; i < MAXRING; ++i)
		{
			rings[i].used = false;
			rings[i].ops.clear();
		}
	anyUsed = false;
	nextOp = 1;
	inRun = false;
}

static void post(Ring& r, uint64_t data, int res)
{
	if (r.cqTail - r.cqHead == MAXCQ)
		fail("simulated kernel: too many completions");
	io_uring_cqe& c = r.cq[r.cqTail++ % MAXCQ];
	c.user_data = data;
	c.res = res;
	c.flags = 0;
	use(r.addr);
	if (r.evfd >= 0)
		kEventWrite(r.evfd, 1);
}

static const long NOT_YET = -1000000;

static long tryOp(Ring& r, Op& op)
{
	long rc;
	if (op.opcode == IORING_OP_READ)
	{
		use(kEventAddr(op.ev));
		uint64_t& c = kFdCnt(op.ev);
		if (c == 0)
			return NOT_YET;
		accRange(op.buf, 8, true, r.pc);
		*(uint64_t*)op.buf = c;
		c = 0;
		return 8;
	}
	use(kSkAddr(op.sk));
	kPlainForce(op.plain);
	switch (op.opcode)
	{
	case IORING_OP_RECVMSG:
	case IORING_OP_RECV:
		rc = kRecv(op.sk, op.iov, op.iovN, r.pc);
		break;
	case IORING_OP_SENDMSG:
	case IORING_OP_SEND:
		rc = kSend(op.sk, op.iov, op.iovN, r.pc);
		break;
	case IORING_OP_ACCEPT:
		rc = kAccept(op.sk, (sockaddr*)op.buf, (socklen_t*)op.lenp, op.flags);
		break;
	default:
		rc = 0;
		if (!op.started)
		{
			op.started = true;
			rc = kConnect(op.sk, (const sockaddr*)op.buf, op.flags);
			if (rc == 0 || rc != -EINPROGRESS)
				break;
		}
		if (kSkState(op.sk) == KS_CONNECTING)
			rc = -EAGAIN;
		else if (kSkState(op.sk) == KS_CONN)
			rc = 0;
		else
		{
			int e = kSkErr(op.sk, true);
			rc = e != 0 ? -e : -ECONNABORTED;
		}
		break;
	}
	kPlainForce(-1);
	return rc == -EAGAIN ? NOT_YET : rc;
}

// Tries everything which is marked as ready.
static bool runOne(uint64_t only)
{
	for (int i = 0; i < MAXRING; ++i)
	{
		Ring& r = rings[i];
		if (!r.used)
			continue;
		for (size_t k = 0; k < r.ops.n; ++k)
		{
			if (!r.ops[k].ready || (only != 0 && r.ops[k].id != only))
				continue;
			Op op = r.ops[k];
			// It might become ready again while is being tried.
			r.ops[k].ready = false;
			long rc = tryOp(r, op);
			size_t p = 0;
			while (p < r.ops.n && r.ops[p].id != op.id) ++p;
			if (p == r.ops.n)
				fail("simulated kernel: an operation is lost");
			if (rc == NOT_YET)
			{
				r.ops[p].started = op.started;
				if (only != 0) return true;
				continue;
			}
			logf("kernel: ring op %d on %d finishes with %ld", op.opcode, op.fd, rc);
			r.ops.removeAt(p);
			post(r, op.data, (int)rc);
			return true;
		}
	}
	return false;
}

static void runReady()
{
	if (inRun)
		return;
	inRun = true;
	while (runOne(0)) {}
	inRun = false;
}

void uringWake(int sk)
{
	if (!anyUsed)
		return;
	bool any = false;
	for (int i = 0; i < MAXRING; ++i)
		if (rings[i].used)
			for (size_t k = 0; k < rings[i].ops.n; ++k)
				if (rings[i].ops[k].sk == sk && rings[i].ops[k].sk >= 0)
					any = rings[i].ops[k].ready = true;
	if (any && !kPumpOn())
		runReady();
}
void uringWakeEvent(int fd)
{
	if (!anyUsed)
		return;
	bool any = false;
	for (int i = 0; i < MAXRING; ++i)
		if (rings[i].used)
			for (size_t k = 0; k < rings[i].ops.n; ++k)
				if (rings[i].ops[k].ev == fd)
					any = rings[i].ops[k].ready = true;
	if (any && !kPumpOn())
		runReady();
}

static void pointRing(Ring& r)
{
	point(r.addr);
	if (r.evfd >= 0)
		point(kEventAddr(r.evfd));
}
void uringPoint(int sk, int ev)
{
	if (!anyUsed)
		return;
	for (int i = 0; i < MAXRING; ++i)
		if (rings[i].used)
			for (size_t k = 0; k < rings[i].ops.n; ++k)
				if ((sk >= 0 && rings[i].ops[k].sk == sk) || (ev >= 0 && rings[i].ops[k].ev == ev))
				{
					pointRing(rings[i]);
					break;
				}
}

bool uringPending()
{
	if (!anyUsed)
		return false;
	for (int i = 0; i < MAXRING; ++i)
		if (rings[i].used)
			for (size_t k = 0; k < rings[i].ops.n; ++k)
				if (rings[i].ops[k].ready)
					return true;
	return false;
}

// The network thread finishes one operation.
void uringPump()
{
	for (int i = 0; i < MAXRING; ++i)
	{
		Ring& r = rings[i];
		if (!r.used)
			continue;
		for (size_t k = 0; k < r.ops.n; ++k)
		{
			if (!r.ops[k].ready)
				continue;
			uint64_t id = r.ops[k].id;
			int sk = r.ops[k].sk, ev = r.ops[k].ev;
			if (sk >= 0)
			{
				point(kSkAddr(sk));
				kPointEp(sk);
				kPointEp(kSkPeer(sk));
			}
			else
				point(kEventAddr(ev));
			pointRing(r);
			// Might be cancelled meanwhile.
			runOne(id);
			return;
		}
	}
}

static Ring* getRing(io_uring* p)
{
	if (p->ring_fd < 0 || kFdKind(p->ring_fd) != K_RING)
		fail("a ring is used after its end");
	return &rings[kFdIdx(p->ring_fd)];
}

} // namespace rt

using namespace rt;

extern "C" {

int io_uring_queue_init_params(unsigned entries, struct io_uring* ring, struct io_uring_params* p)
{
	int i = 0;
	while (i < MAXRING && rings[i].used) ++i;
	if (i == MAXRING) fail("simulated kernel: too many rings");
	if (entries == 0 || entries > MAXSQ) return -EINVAL;
	unsigned n = 1;
	while (n < entries) n *= 2;
	point(0x700000000000ull);
	anyUsed = true;
	Ring& r = rings[i];
	r.used = true;
	r.addr = RBASE + i * 64;
	r.evfd = -1;
	r.entries = n;
	r.nSq = 0;
	r.cqHead = r.cqTail = 0;
	r.ops.clear();
	int fd = kNewFd(K_RING);
	kSetIdx(fd, i);
	p->features = IORING_FEAT_NODROP | IORING_FEAT_SUBMIT_STABLE;
	p->sq_entries = n;
	p->cq_entries = 2 * n;
	ring->ring_fd = fd;
	use(0x700000000000ull);
	return 0;
}
int io_uring_queue_init(unsigned entries, struct io_uring* ring, unsigned)
{
	struct io_uring_params p;
	memset(&p, 0, sizeof(p));
	return io_uring_queue_init_params(entries, ring, &p);
}

void io_uring_queue_exit(struct io_uring* ring)
{
	Ring* r = getRing(ring);
	point(r->addr);
	for (size_t k = 0; k < r->ops.n; ++k)
		if (r->ops[k].sk >= 0)
			fail("the ring is destroyed with an operation %d on a socket", r->ops[k].opcode);
	r->used = false;
	r->ops.clear();
	use(r->addr);
	kFreeFd(ring->ring_fd);
}

int io_uring_register_eventfd(struct io_uring* ring, int fd)
{
	Ring* r = getRing(ring);
	if (kFdKind(fd) != K_EVENT) return -EBADF;
	if (r->evfd >= 0) return -EBUSY;
	r->evfd = fd;
	return 0;
}
int io_uring_unregister_eventfd(struct io_uring* ring)
{
	Ring* r = getRing(ring);
	if (r->evfd < 0) return -ENXIO;
	r->evfd = -1;
	return 0;
}

struct io_uring_sqe* io_uring_get_sqe(struct io_uring* ring)
{
	Ring* r = getRing(ring);
	if (r->nSq == r->entries)
		return nullptr;
	io_uring_sqe* s = &r->sq[r->nSq++];
	memset(s, 0, sizeof(*s));
	return s;
}

int io_uring_submit(struct io_uring* ring)
{
	Ring* r = getRing(ring);
	r->pc = __builtin_return_address(0);
	unsigned n = r->nSq;
	// The order relative to all the users of these objects.
	for (unsigned i = 0; i < n; ++i)
	{
		io_uring_sqe& s = r->sq[i];
		int kind = kFdKind(s.fd);
		if (kind == K_SOCK)
		{
			int sk = kFdIdx(s.fd);
			point(kSkAddr(sk));
			kPointEp(sk);
			kPointEp(kSkPeer(sk));
		}
		else if (kind == K_EVENT)
			point(kEventAddr(s.fd));
	}
	pointRing(*r);
	if (r->nSq != n)
		fail("two threads use the ring at once");
	for (unsigned i = 0; i < n; ++i)
	{
		io_uring_sqe& s = r->sq[i];
		logf("kernel: ring op %d on %d is submitted", s.opcode, s.fd);
		int kind = kFdKind(s.fd);
		if (s.opcode == IORING_OP_NOP)
		{
			post(*r, s.user_data, 0);
			continue;
		}
		if (kind == K_NONE)
		{
			post(*r, s.user_data, -EBADF);
			continue;
		}
		if (s.opcode == IORING_OP_ASYNC_CANCEL)
		{
			if ((s.cancel_flags & 3) != 3)
				fail("simulated kernel: unsupported flags of a cancel: %x", s.cancel_flags);
			Vec<uint64_t> ids;
			for (size_t k = 0; k < r->ops.n;)
			{
				if (r->ops[k].fd == s.fd)
				{
					ids.push(r->ops[k].data);
					r->ops.removeAt(k);
				}
				else
					++k;
			}
			// The cancelled ones can be reported before or after the cancellation.
			bool after = ids.n > 0 && chooseDev(2) == 1;
			if (after)
				post(*r, s.user_data, (int)ids.n);
			for (size_t k = 0; k < ids.n; ++k)
				post(*r, ids[k], -ECANCELED);
			if (!after)
				post(*r, s.user_data, (int)ids.n);
			free(ids.d);
			continue;
		}
		Op op;
		memset((void*)&op, 0, sizeof(op));
		op.id = nextOp++;
		op.data = s.user_data;
		op.opcode = s.opcode;
		op.fd = s.fd;
		op.sk = op.ev = -1;
		op.plain = kPlain();
		op.ready = true;
		if (s.opcode == IORING_OP_READ)
		{
			if (kind != K_EVENT || s.len < 8)
				fail("simulated kernel: unsupported read");
			op.ev = s.fd;
			op.buf = (uptr)s.addr;
		}
		else
		{
			if (kind != K_SOCK)
			{
				post(*r, s.user_data, -ENOTSOCK);
				continue;
			}
			op.sk = kFdIdx(s.fd);
			switch (s.opcode)
			{
			case IORING_OP_RECVMSG:
			case IORING_OP_SENDMSG:
			{
				const msghdr* m = (const msghdr*)(uptr)s.addr;
				accRange((uptr)m, sizeof(*m), false, r->pc);
				op.iovN = m->msg_iovlen < 16 ? (int)m->msg_iovlen : 16;
				for (int k = 0; k < op.iovN; ++k)
				{
					accRange((uptr)&m->msg_iov[k], sizeof(iovec), false, r->pc);
					op.iov[k] = m->msg_iov[k];
				}
				break;
			}
			case IORING_OP_RECV:
			case IORING_OP_SEND:
				op.iovN = 1;
				op.iov[0].iov_base = (void*)(uptr)s.addr;
				op.iov[0].iov_len = s.len;
				break;
			case IORING_OP_ACCEPT:
				op.buf = (uptr)s.addr;
				op.lenp = (uptr)s.addr2;
				op.flags = (int)s.accept_flags;
				break;
			case IORING_OP_CONNECT:
				op.buf = (uptr)s.addr;
				op.flags = (int)s.addr2;
				accRange(op.buf, op.flags, false, r->pc);
				break;
			default:
				fail("simulated kernel: unsupported ring operation %d", s.opcode);
			}
		}
		r->ops.push(op);
		bool was = inRun;
		inRun = true;
		runOne(op.id);
		inRun = was;
		if (!kPumpOn())
			runReady();
	}
	r->nSq = 0;
	use(r->addr);
	return (int)n;
}

unsigned io_uring_peek_batch_cqe(struct io_uring* ring, struct io_uring_cqe** cqes, unsigned count)
{
	Ring* r = getRing(ring);
	point(r->addr);
	use(r->addr);
	unsigned n = 0;
	while (n < count && r->cqHead + n != r->cqTail)
	{
		cqes[n] = &r->cq[(r->cqHead + n) % MAXCQ];
		observe(mix(cqes[n]->user_data != 0, (uint32_t)cqes[n]->res));
		++n;
	}
	observe(n);
	return n;
}

void io_uring_cq_advance(struct io_uring* ring, unsigned n)
{
	Ring* r = getRing(ring);
	if (n == 0)
		return;
	point(r->addr);
	if (r->cqTail - r->cqHead < n)
		fail("the completions are consumed twice");
	r->cqHead += n;
	use(r->addr);
}

}
