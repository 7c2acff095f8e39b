// Replaces the system header for the checks: the ring is simulated by the host (engine/uring.cpp).
#pragma once
#include <errno.h>
#include <linux/io_uring.h>
#include <stdint.h>
#include <string.h>
#include <sys/socket.h>

struct io_uring
{
	int ring_fd;
};

extern "C" {
int io_uring_queue_init_params(unsigned entries, struct io_uring* ring, struct io_uring_params* p);
int io_uring_queue_init(unsigned entries, struct io_uring* ring, unsigned flags);
void io_uring_queue_exit(struct io_uring* ring);
int io_uring_register_eventfd(struct io_uring* ring, int fd);
int io_uring_unregister_eventfd(struct io_uring* ring);
struct io_uring_sqe* io_uring_get_sqe(struct io_uring* ring);
int io_uring_submit(struct io_uring* ring);
unsigned io_uring_peek_batch_cqe(struct io_uring* ring, struct io_uring_cqe** cqes, unsigned count);
void io_uring_cq_advance(struct io_uring* ring, unsigned n);
}

static inline int io_uring_peek_cqe(struct io_uring* ring, struct io_uring_cqe** cqe) { return io_uring_peek_batch_cqe(ring, cqe, 1) == 1 ? 0 : -EAGAIN; }
static inline void io_uring_cqe_seen(struct io_uring* ring, struct io_uring_cqe*) { io_uring_cq_advance(ring, 1); }
static inline void* io_uring_cqe_get_data(const struct io_uring_cqe* c) { return (void*)(uintptr_t)c->user_data; }
static inline void io_uring_sqe_set_data(struct io_uring_sqe* s, void* d) { s->user_data = (uint64_t)(uintptr_t)d; }
static inline void io_uring_prep_rw(int op, struct io_uring_sqe* s, int fd, const void* addr, unsigned len, uint64_t off)
{
	s->opcode = (uint8_t)op;
	s->flags = 0;
	s->ioprio = 0;
	s->fd = fd;
	s->off = off;
	s->addr = (uint64_t)(uintptr_t)addr;
	s->len = len;
	s->rw_flags = 0;
	s->buf_index = 0;
	s->personality = 0;
	s->file_index = 0;
}
static inline void io_uring_prep_nop(struct io_uring_sqe* s) { io_uring_prep_rw(IORING_OP_NOP, s, -1, NULL, 0, 0); }
static inline void io_uring_prep_connect(struct io_uring_sqe* s, int fd, const struct sockaddr* a, socklen_t len) { io_uring_prep_rw(IORING_OP_CONNECT, s, fd, a, 0, len); }
static inline void io_uring_prep_accept(struct io_uring_sqe* s, int fd, struct sockaddr* a, socklen_t* len, int flags)
{
	io_uring_prep_rw(IORING_OP_ACCEPT, s, fd, a, 0, (uint64_t)(uintptr_t)len);
	s->accept_flags = (uint32_t)flags;
}
static inline void io_uring_prep_recvmsg(struct io_uring_sqe* s, int fd, struct msghdr* m, unsigned flags)
{
	io_uring_prep_rw(IORING_OP_RECVMSG, s, fd, m, 1, 0);
	s->msg_flags = flags;
}
static inline void io_uring_prep_sendmsg(struct io_uring_sqe* s, int fd, const struct msghdr* m, unsigned flags)
{
	io_uring_prep_rw(IORING_OP_SENDMSG, s, fd, m, 1, 0);
	s->msg_flags = flags;
}
static inline void io_uring_prep_recv(struct io_uring_sqe* s, int fd, void* b, size_t n, int flags)
{
	io_uring_prep_rw(IORING_OP_RECV, s, fd, b, (unsigned)n, 0);
	s->msg_flags = (uint32_t)flags;
}
static inline void io_uring_prep_send(struct io_uring_sqe* s, int fd, const void* b, size_t n, int flags)
{
	io_uring_prep_rw(IORING_OP_SEND, s, fd, b, (unsigned)n, 0);
	s->msg_flags = (uint32_t)flags;
}
static inline void io_uring_prep_read(struct io_uring_sqe* s, int fd, void* b, unsigned n, uint64_t off) { io_uring_prep_rw(IORING_OP_READ, s, fd, b, n, off); }
static inline void io_uring_prep_cancel_fd(struct io_uring_sqe* s, int fd, unsigned flags)
{
	io_uring_prep_rw(IORING_OP_ASYNC_CANCEL, s, fd, NULL, 0, 0);
	s->cancel_flags = flags | 2;
}
