from props_box import q
from props_sch import r


def register_net(prop, S, GROUPS):
    GROUPS["net"] = dict(harness=["h_net.cpp"], dirs=["box", "net"], libs=("-lssl", "-lcrypto"))
    prop("N01", title="Buffer stream is a byte-exact FIFO for any mix of its operations",
         statement="Bytes come out of a buffer stream in the order they were put there, none lost, doubled or changed, for any sequence of copying writes, attachments of foreign non-empty buffer lists, reservations followed by partial receives, skips, reads, peeks, pops and clears. "
                   "The readable and the writable sizes are exact at any moment, a reservation gives the requested space, the free space can be fully received into, popped buffers are not touched by the stream afterwards, and foreign memory is not written over its data.",
         over=["operation sequences", "inputs"], quant="all operation sequences to depth 4 with sizes around the buffer capacity and 7 shapes of attached lists",
         why="the stream keeps five coupled positions; a wrong one shows up only for a particular combination of partially filled, reserved and attached buffers several operations ago",
         files=["src/mg/net/Buffer.cpp", "src/mg/net/Buffer.h"], mechanism=["BufferStream::WriteCopy", "BufferStream::WriteRef", "BufferStream::PropagateWritePos", "BufferStream::SkipData", "BufferStream::PopData"],
         scenarios=[
             S("net", "buffer_stream", q(0, 40, depth=3, lists=7), q(0, 3600, depth=5, lists=7)),
             S("net", "buffer_stream", q(0, 40, depth=4, lists=3, sizes=3), q(0, 3600, depth=6, lists=3, sizes=2)),
         ])
    prop("N02", title="Buffer lists keep their bytes while buffers are shared and skipped",
         statement="A list of buffer links holds exactly the bytes appended to it by copy, by reference or by move, in the order of the appends, minus the skipped prefix; the same bytes are seen through I/O vectors of any count and through copies. "
                   "Empty buffers at any place are transparent. Skipping data or an empty prefix in one list never changes what other lists sharing the same buffers contain, and references to more than 4GB of data are split without a loss. Growing or shrinking a chain of buffers works as on one big buffer.",
         over=["operation sequences", "inputs"], quant="all operation sequences to depth 3 (4 with a smaller alphabet) on two lists sharing buffers, 7 shapes of buffer lists including empty buffers",
         why="damage done through one list to a shared buffer is visible only via another list, and boundary offsets and empty buffers need exact combinations",
         files=["src/mg/net/Buffer.cpp", "src/mg/net/Buffer.h"], mechanism=["BufferLinkList::SkipData", "BufferLinkList::SkipEmptyPrefix", "BuffersToIOVecsForWrite", "BuffersCopy", "BuffersRef"],
         scenarios=[
             S("net", "buffer_links", q(0, 40, depth=3), q(0, 3600, depth=4)),
             S("net", "buffer_links", q(0, 40, depth=4, kinds=3, sizes=2), q(0, 3600, depth=5, kinds=3, sizes=2)),
             S("net", "buffer_huge_ref", q(0)),
             S("net", "buffer_propagate", q(0)),
         ])
    prop("N03", title="Addresses and URLs are parsed exactly, and address strings round-trip",
         statement="A host string is accepted if and only if it is an IPv4 or IPv6 address, the latter optionally in brackets, with an optional decimal port 0-65535 (after brackets for IPv6), and gives exactly that address and port in the network order; a rejected one leaves the host unchanged. "
                   "The string form of any address with any port is parsed back into the same one. Equality compares family, address and port, and only the port is ignored on request. "
                   "A URL is split into protocol, host, port and target so that the protocol is what stands before the first '://' preceding any other slash, the target starts at the first slash after it, and an invalid port gives 0.",
         over=["inputs"], quant="all strings of up to 4-5 tokens of an alphabet with valid, boundary and malformed parts; all ports; all octet and group combinations of a boundary alphabet",
         why="parsers fail on malformed or boundary combinations which a list of examples does not contain",
         files=["src/mg/net/Host.cpp", "src/mg/net/URL.cpp", "src/mg/box/StringFunctions.cpp"], mechanism=["Host::Set", "Host::ToString", "Host::operator==", "URLParse"],
         scenarios=[
             S("net", "host_parse", q(0, depth=4), q(0, 900, depth=5)),
             S("net", "host_values", q(0)),
             S("net", "url_parse", q(0, depth=5), q(0, 900, depth=6)),
         ])
    GROUPS["dns"] = dict(harness=["h_dns.cpp"], dirs=["box", "net"], libs=("-lssl", "-lcrypto"))
    GROUPS["sock"] = dict(harness=["h_sock.cpp"], dirs=["box", "net"], libs=("-lssl", "-lcrypto"))
    prop("N04", title="Each domain resolve request is answered exactly once and truthfully",
         statement="Every request to resolve a domain name gets exactly one callback, whether it succeeds, fails, times out or is canceled at any moment by any thread, also when its handle is dropped or deleted from the callback. "
                   "A success brings all the distinct IPv4 and IPv6 addresses given by the system and nothing else, an error is the one given by the system, a timeout never comes before the limit, a request with an expired limit is not executed, and a cancellation is reported only to who was canceled. A request canceled or expired while the worker has not taken it yet is not resolved. "
                   "Any number of requests from any threads are served without stalls, the blocking variant returns the same, and nothing is leaked.",
         over=["schedules", "inputs"], quant="all interleavings of posting and canceling threads with the resolving thread up to 3 preemptions; all combinations of 5 name kinds, 5 limits and 4 fates for 2-3 requests; 11 mixed requests against the batch size",
         why="the answer and the cancellation race in windows of a few instructions, and the timeouts depend on the latencies of all the requests queued before",
         files=["src/mg/net/DomainToIP.cpp", "src/mg/net/DomainToIP.h"], mechanism=["DomainToIPAsync", "DomainToIPCancel", "DomainToIPBlocking", "DomainToIPWorker::PrivProcessMain", "DomainToIPWorker::PrivProcessFront"],
         scenarios=[
             S("dns", "dns_inputs", r(0, requests=3), r(1, 1200, requests=3)),
             S("dns", "dns_cancel", r(2), r(4, 3600)),
             S("dns", "dns_first", r(3), r(6, 900)),
             S("dns", "dns_blocking", r(2), r(4, 1200)),
             S("dns", "dns_queued", r(1, 20), r(2, 1200, requests=4)),
             S("dns", "dns_many", r(0, requests=10), r(0, 1800, requests=12)),
         ])
    prop("N05", title="Socket options take the requested values, failures are reported",
         statement="No-delay, keep-alive, address reuse and dual-stack calls leave the socket exactly in the requested state when they report a success, with keep-alive times derived from the given timeout and the timeout of unconfirmed data covering them, and report a failure of the system with an error. "
                   "Binding gives the requested address and a real port, an occupied one is refused, and accept errors are divided into passing and fatal ones as documented.",
         over=["inputs", "faults"], quant="all sequences of 3 option calls with all boundary values and up to 2 failing system calls for both address families",
         why="inverted or partially applied options do not change the outcome of a functional test", files=["src/mg/net/Socket.cpp", "src/mg/net/Socket_Unix.cpp", "src/mg/net/Socket.h"],
         mechanism=["SocketSetNoDelay", "SocketSetKeepAlive", "SocketSetDualStack", "SocketFixReuseAddr", "SocketIsAcceptErrorCritical"],
         scenarios=[S("sock", "sock_options", q(0, 40, D=2), q(0, 900, D=3, depth=4)), S("sock", "sock_misc", q(0))])

    GROUPS["sio"] = dict(harness=["h_sio.cpp"], dirs=["box", "net", "sio"], libs=("-lssl", "-lcrypto"))
    prop("I01", title="Polled sockets deliver bytes exactly, report all failures, leak nothing",
         statement="A polled TCP socket is always in the state its calls reported: connecting, connected or closed. A connect, an update, a send, or a receive fails only if the connection did, with the true reason, and leaves the socket closed and reusable with nothing of the old connection left. "
                   "While the connection lives, all the posted bytes (copied or referenced, of any sizes including empty) arrive once, in order, unchanged, however the network cuts them, and then the end of the stream does. "
                   "The polled server accepts each client once with its address, survives passing errors, and can be reopened. No descriptor is ever leaked.",
         over=["operation sequences", "faults"], quant="all sequences of 3-4 calls of 12 kinds (two sides, server, network) with all argument kinds from 5 stages of a connection, with up to 2 faults of the system calls or short transfers",
         why="partial sends, failing calls and reconnects in the middle of a transfer need a particular order of calls and kernel answers which the loopback does not give",
         files=["src/mg/sio/TCPSocket.cpp", "src/mg/sio/TCPServer.cpp", "src/mg/sio/Socket.cpp", "src/mg/sio/Socket_Unix.cpp"],
         mechanism=["TCPSocket::Update", "TCPSocket::Connect", "TCPSocket::Recv", "TCPSocket::Close", "TCPServer::Accept", "SocketConnectUpdate", "SocketSend"],
         scenarios=[S("sio", "sio_calls", q(0, 60, depth=3), q(0, 2400, depth=5, sizes=2)),
                    S("sio", "sio_calls", q(0, 60, depth=4, sizes=2), q(0, 1200, depth=4)),
                    S("sio", "sio_calls", q(0, 60, D=2, depth=3, faults=129), q(0, 1200, D=2, depth=4, faults=129)),
                    S("sio", "sio_calls", q(0, 60, D=2, depth=3, faults=1023, sizes=2), q(0, 1200, D=2, depth=4, faults=1023)),
                    S("sio", "sio_calls", q(0, 60, depth=2, ipv6=1), q(0, 600, depth=3, ipv6=1))])

    GROUPS["msg"] = dict(harness=["h_msg.cpp"], dirs=["box", "net", "test"], libs=("-lssl", "-lcrypto"),
                         edits=[("mg/net/Buffer.h", r"theBufferCopySize = 1024 - sizeof\(Buffer\)", "theBufferCopySize = 11"), ("mg/net/Buffer.h", r"static_assert\(sizeof\(BufferCopy\) == 1024.*", "")])
    prop("T01", title="Test support: messages round-trip, metrics count once, arguments parse",
         statement="A message written field by field reads back the same, field by field or with skips, however its bytes are cut on the way and whatever messages surround it; it is complete exactly when all its bytes are there, and the reported sizes are exact. "
                   "Speed and average metrics count each event once, whatever switches of the buckets and events of other threads happen meanwhile, and forget it when its bucket is reused. A command line gives exactly the passed keys and values.",
         over=["inputs", "schedules"], quant="all pairs of messages of up to 2 fields of 12 kinds in 4 cuts with reduced buffers; all interleavings of 2 counting threads with bucket switches; all command lines of up to 5 words of 10",
         why="fields and headers falling on the buffer borders and lost counts are not hit by the benchmarks which use the library",
         files=["src/mg/test/Message.cpp", "src/mg/test/Message.h", "src/mg/test/MetricMovingAverage.cpp", "src/mg/test/MetricSpeed.cpp", "src/mg/test/CommandLine.cpp"],
         mechanism=["WriteMessage::WriteData", "WriteMessage::Open", "ReadMessage::IsComplete", "MetricSpeed::GoToNextBucket", "CommandLine::CommandLine"],
         scenarios=[S("msg", "msg_roundtrip", q(0, 60, fields=3), q(0, 1800, full=1)), S("msg", "msg_metrics", q(2, 60), q(3, 900)), S("msg", "msg_cmdline", q(0, 60))])

    ssl = dict(harness=["x_ssl.cpp"], dirs=["box", "net"], libs=("-lssl", "-lcrypto"), standalone=True)
    GROUPS["ssl_fast"] = dict(ssl)
    GROUPS["ssl_asan"] = dict(ssl, sanitize=True)
    a = ["OpenSSL itself is the installed one and is not checked; its random numbers are replaced with reproducible ones",
         "the explorer (engine/xplore.h) re-executes sequential drivers for all sequences of choices; the code under it is not instrumented, memory errors are found with AddressSanitizer in the scenarios of the group ssl_asan"]
    prop("N06", title="SSL streams carry bytes exactly, hide them, and reject any tampering",
         statement="Application data written to one SSL stream comes out of the other one exactly, in order and once, for any cut of the traffic into pieces and any order of calls: written before the encryption is turned on it goes as is, during the handshake it waits, later it is encrypted, and no part of it is ever visible outside after Connect(). "
                   "When all is exchanged both sides are connected with equal version and cipher. Data written to a connected stream before Shutdown() reaches the other side, which gets closed without an error. Data written after or into a closed stream is dropped. "
                   "A changed, dropped, doubled, reordered or injected record never gives wrong data, correct data before it is delivered, and garbage fails the stream for good. No remote input and no order of calls crashes, and other streams of the same thread have no influence.",
         over=["operation sequences", "faults", "inputs"],
         quant="all sequences of 3-4 calls (10 kinds for each side, with pieces of one byte, a half and all) from 5 stages of a session in TLS 1.2 and 1.3, with failures of other streams in between; all changes of 9 kinds of each record of the first 3 flights and of the data, in 3 cuts",
         why="a handshake has tens of points where data can be cut, written, or shut down; losses and crashes come from rare pairs of a stage and a call, and from hostile input",
         files=["src/mg/net/SSLStreamOpenSSL.cpp", "src/mg/net/SSLStreamOpenSSL.h", "src/mg/net/SSLBioMem.cpp", "src/mg/net/SSLStream.h"],
         mechanism=["SSLStreamOpenSSL::AppendAppInputCopy", "SSLStreamOpenSSL::PopAppOutput", "SSLStreamOpenSSL::PopNetOutput", "SSLStreamOpenSSL::Shutdown", "SSLStreamOpenSSL::PrivUpdate"],
         assumptions=a,
         scenarios=[
             S("ssl_asan", "ssl_stream", q(0, 120, D=1, depth=3), q(0, 3600, D=1, depth=4)),
             S("ssl_asan", "ssl_tamper", q(0, 120)),
             S("ssl_fast", "ssl_stream", q(0, 120, depth=4, starts=5), q(0, 7200, depth=5)),
         ])
    prop("N07", title="SSL contexts enforce their trust, versions, ciphers and certificates",
         statement="A session is established only if the certificates required by the trust mode of each side are valid for it: a strict (also by default) side accepts exactly the unexpired certificates of its authorities, milder modes never accept expired or missing ones, and only the bypassing mode accepts anything. A valid one is always accepted; a rejected side gets no data. "
                   "The negotiated version is the highest one in the ranges of both sides and the cipher is the first in the client's order allowed by both, otherwise the handshake fails on both sides. "
                   "Certificates and keys are accepted if and only if they are correct, allowed by the mode and belong to each other, from memory and from files, with or without a password; a failure breaks nothing. The host name reaches the server. Contexts are equal if and only if they are configured equally.",
         over=["inputs", "operation sequences"],
         quant="all combinations of trust modes, certificates (2 authorities, expired, self-signed, absent) and sets of authorities of both sides; all sequences of 1-2 version and cipher calls for both sides; all pairs of sequences of 2 configuration calls; all pairs of certificates and keys in 4 forms",
         why="a check which is skipped for one combination of settings lets anybody in and breaks no functional test",
         files=["src/mg/net/SSLContextOpenSSL.cpp", "src/mg/net/SSLContextOpenSSL.h", "src/mg/net/SSLOpenSSL.cpp"],
         mechanism=["SSLContextOpenSSL::SetTrust", "OpenSSLVerifyCertStrict", "SSLContextOpenSSL::AddCipher", "SSLContextOpenSSL::SetMinVersion", "SSLContextOpenSSL::operator=="],
         assumptions=a,
         scenarios=[
             S("ssl_asan", "ssl_trust", q(0, 60, mutual=0)),
             S("ssl_fast", "ssl_trust", q(0, 180, mutual=1)),
             S("ssl_fast", "ssl_params", q(0, 60, vers=1, ciphs=1), q(0, 7200, vers=2, ciphs=1)),
             S("ssl_fast", "ssl_params", q(0, 60, vers=2, ciphs=0), q(0, 3600, vers=3, ciphs=0)),
             S("ssl_fast", "ssl_params", q(0, 60, vers=0, ciphs=2), q(0, 3600, vers=0, ciphs=3)),
             S("ssl_asan", "ssl_certs", q(0)),
             S("ssl_asan", "ssl_files", q(0)),
             S("ssl_fast", "ssl_compare", q(0, 120, depth=2), q(0, 3600, depth=3)),
         ])
