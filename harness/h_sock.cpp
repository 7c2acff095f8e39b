// Socket helpers: options, addresses, error classification.
#include "mc.h"
#include "kern.h"
#include "mg/box/Error.h"
#include "mg/net/Host.h"
#include "mg/net/Socket.h"
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <unistd.h>

using namespace mg::net;
using mg::box::Error;

// Options have the requested values after a success, and a failure of the system is reported.
MC_SCENARIO(sock_options)
{
	mc_k_faults(KF_OPT);
	int family = mc_choose(2) ? AF_INET : AF_INET6;
	int fd = socket(family, SOCK_STREAM, 0);
	static const uint32_t T[] = {1, 999, 1000, 1001, 1999, 30000, 32767000};
	int steps = (int)mc_param("depth", 3);
	int outcome = 0;
	for (int i = 0; i < steps; ++i)
	{
		Error::Ptr err;
		bool v = mc_choose(2);
		bool ok;
		switch (mc_choose(4))
		{
		case 0:
			ok = SocketSetNoDelay(fd, v, err);
			if (ok)
				MC_CHECKF(mc_k_opt(fd, IPPROTO_TCP, TCP_NODELAY) == (int)v, "no-delay is %s", v ? "not on" : "not off");
			break;
		case 1:
		{
			uint32_t t = T[mc_choose(7)];
			ok = SocketSetKeepAlive(fd, v, t, err);
			if (ok)
			{
				MC_CHECKF(mc_k_opt(fd, SOL_SOCKET, SO_KEEPALIVE) == (int)v, "keep-alive is %s", v ? "not on" : "not off");
				if (v)
				{
					int idle = mc_k_opt(fd, IPPROTO_TCP, TCP_KEEPIDLE);
					int intvl = mc_k_opt(fd, IPPROTO_TCP, TCP_KEEPINTVL);
					int cnt = mc_k_opt(fd, IPPROTO_TCP, TCP_KEEPCNT);
					int user = mc_k_opt(fd, IPPROTO_TCP, TCP_USER_TIMEOUT);
					MC_CHECKF(idle == (int)(t < 1000 ? 1 : t / 1000), "idle time %d for %u", idle, t);
					MC_CHECKF(intvl > 0 && cnt > 0, "the probes are not set up");
					MC_CHECKF(user == (idle + intvl * cnt) * 1000, "user timeout %d", user);
				}
			}
			break;
		}
		case 2:
			ok = SocketFixReuseAddr(fd, err);
			if (ok)
				MC_CHECKF(mc_k_opt(fd, SOL_SOCKET, SO_REUSEADDR) == 1, "address reuse is not on");
			break;
		default:
			ok = SocketSetDualStack(fd, v, err);
			MC_CHECKF(!ok || family == AF_INET6, "dual stack of an IPv4 socket");
			if (ok)
				MC_CHECKF(mc_k_opt(fd, IPPROTO_IPV6, IPV6_V6ONLY) == (int)!v, "dual stack is %s", v ? "not on" : "not off");
			break;
		}
		MC_CHECKF(ok == !err.IsSet(), "the result does not match the error");
		outcome = outcome * 2 + ok;
	}
	SocketClose(fd);
	MC_CHECK(mc_k_open(K_SOCK) == 0);
	mc_outcome("%d", outcome);
}

// Bound addresses, non-blocking mode, errors of the accept() which do not mean the end of the server.
MC_SCENARIO(sock_misc)
{
	int family = mc_choose(2) ? AF_INET : AF_INET6;
	Error::Ptr err;
	int fd = socket(family, SOCK_STREAM, 0);
	int how = mc_choose(3);
	uint16_t port = 0;
	if (how == 0)
		MC_CHECK(SocketBindAny(fd, family == AF_INET ? ADDR_FAMILY_IPV4 : ADDR_FAMILY_IPV6, err));
	else
	{
		port = how == 1 ? 0 : 65535;
		Host h = family == AF_INET ? HostMakeLocalIPV4(port) : HostMakeLocalIPV6(port);
		MC_CHECK(SocketBind(fd, h, err));
		Host b = SocketGetBoundHost(fd);
		MC_CHECK(b.IsEqualNoPort(h));
	}
	Host b = SocketGetBoundHost(fd);
	MC_CHECK(b.myAddr.sa_family == family);
	MC_CHECK(port != 0 ? b.GetPort() == port : b.GetPort() != 0);
	Error::Ptr err2;
	int fd2 = socket(family, SOCK_STREAM, 0);
	MC_CHECKF(!SocketBind(fd2, b, err2) && err2.IsSet(), "an occupied address is bound again");
	SocketMakeNonBlocking(fd2);
	MC_CHECK((fcntl(fd2, F_GETFL) & O_NONBLOCK) != 0);
	Error::Ptr err3;
	MC_CHECKF(!SocketShutdown(fd2, err3) && err3.IsSet(), "a shutdown of an unconnected socket");
	SocketClose(fd2);
	SocketClose(fd);
	SocketClose(theInvalidSocket);
	MC_CHECK(mc_k_open(K_SOCK) == 0);
	static const int soft[] = {ENETDOWN, EPROTO, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH, ECONNABORTED, EINTR};
	for (int e : soft)
		MC_CHECKF(!SocketIsAcceptErrorCritical(mg::box::ErrorCodeFromErrno(e)), "errno %d kills the server", e);
	static const int hard[] = {EMFILE, ENFILE, EBADF, EINVAL, ENOTSOCK, ENOMEM, EPERM};
	for (int e : hard)
		MC_CHECKF(SocketIsAcceptErrorCritical(mg::box::ErrorCodeFromErrno(e)), "errno %d is ignored", e);
}
