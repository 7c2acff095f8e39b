// SSLSocket without encryption: the life cycle of the plain socket.
#define LIFE_SSL 1
#include "tcp_common.h"
#include "fake_ssl.h"
#include "mg/aio/SSLSocket.h"

namespace mg {
namespace net {
	mg::box::ErrorPtrRaised ErrorRaiseSSL(uint32_t, const char*) { return mg::box::ErrorRaise(mg::box::ERR_NET_PROTOCOL, "ssl"); }
}
}

#include "tcp_life.h"
