// Simulated kernel: interface for the harnesses.
#pragma once
#include <stdint.h>
#include <sys/socket.h>

enum KKind { K_NONE, K_SOCK, K_EPOLL, K_EVENT, K_FILE, K_RING };
enum KState { KS_DEAD, KS_NEW, KS_CONNECTING, KS_CONN, KS_LISTEN, KS_CLOSED };
// What can go wrong: each is an environment deviation.
enum KFault
{
	KF_SHORT = 1,        // short send and receive
	KF_SEND_ERR = 2,     // connection reset seen by a send
	KF_RECV_ERR = 4,     // connection reset seen by a receive
	KF_CONNECT = 8,      // refused, timed out, unreachable or immediate connect
	KF_ACCEPT = 16,      // aborted connection, interruption, out of descriptors
	KF_SOCKET = 32,      // out of descriptors
	KF_EINTR = 64,       // interrupted poll
	KF_SEND_EAGAIN = 128, // no space for a while (needs the network thread)
	KF_OPT = 256,        // failing setsockopt
	KF_ACCEPT_NET = 512, // any of the errors accept() can forward from a broken connection, interruption
};

extern "C" {
void mc_k_faults(int mask);
// Bytes one side can have unread.
void mc_k_capacity(long c);
// 0: non-blocking connects finish later, 1: right away.
void mc_k_conn_mode(int m);
// Calls of this thread are not subject to the faults.
void mc_k_plain(bool v);
// Whether a call on a descriptor which is not open is a violation (by default) or just EBADF.
void mc_k_strict(bool v);
void mc_k_dns(const char* name, int rc, int err, uint64_t latencyNs, int n, const struct sockaddr* const* addrs);
uint64_t mc_k_dns_calls(void);
int mc_k_open(int kind);
// The network thread: finishes the non-blocking connects. Never returns.
void mc_k_pump(void);
// One action of the network, by the calling thread. Needs mc_k_pump_on().
bool mc_k_pump_step(void);
// Call in advance to make all connects be finished by the network thread.
void mc_k_pump_on(void);
// Reset the connection of this socket as seen by its peer.
void mc_k_reset(int fd);
int mc_k_opt(int fd, int level, int name);
int mc_k_state(int fd);
}
