from props_box import q
from props_sch import r

CORE = ["src/mg/aio/IOCore.cpp", "src/mg/aio/IOCore_epoll.cpp", "src/mg/aio/IOCore_iouring.cpp", "src/mg/aio/IOTask.cpp", "src/mg/aio/IOTask_epoll.cpp", "src/mg/aio/IOTask_iouring.cpp", "src/mg/aio/IOTask.h"]


def register_aio(prop, S, GROUPS):
    ssl = ("-lssl", "-lcrypto")
    GROUPS["iotask"] = dict(harness=["h_iotask.cpp"], dirs=["box", "net", "aio"], libs=ssl)
    GROUPS["iotaskb"] = dict(harness=["h_iotask.cpp"], dirs=["box", "net", "aio"], libs=ssl,
                             edits=[("mg/aio/IOCore.h", r"#define MG_IOCORE_EPOLL_BATCH \d+", "#define MG_IOCORE_EPOLL_BATCH 2"),
                                    ("mg/aio/IOCore.h", r"#define MG_IOCORE_READY_BATCH \d+", "#define MG_IOCORE_READY_BATCH 3")])
    # The same on the other backend of Linux.
    def uring(g):
        d = dict(GROUPS[g], backend="iouring", defines=("MG_IOCORE_USE_IOURING=1",))
        d["edits"] = list(d.get("edits", ())) + [("mg/aio/IOTask.h", r"theIOUringMaxBufCount = \d+", "theIOUringMaxBufCount = 3")]
        if g == "iotaskb":
            d["edits"].append(("mg/aio/IOCore.h", r"#define MG_IOCORE_IOURING_BATCH \d+", "#define MG_IOCORE_IOURING_BATCH 2"))
        GROUPS["u" + g] = d
    uring("iotask")
    uring("iotaskb")
    prop("A01", title="IO tasks run on each wakeup and deadline, one thread at a time, close once",
         statement="On both backends, epoll and io_uring: a wakeup of an IO task by any thread at any moment - before the post, while waiting, while being executed, in a stopped core - is followed by an execution; nothing is executed without a wakeup, a deadline or an event. "
                   "Data arriving at the sockets of the tasks are never missed. An execution by a deadline is never early, not late, is reported as expired, and the lowest deadline set during the previous execution is the one in force. A task is never executed by two threads at once and each execution sees the effects of the previous one. "
                   "A close request from any thread at any moment, any number of times, gives exactly one final closed execution, the last one, after which the task is freed or can be re-used as new. "
                   "Stop and start of the core lose nothing, a stop does not wait for deadlines, nothing is executed in a stopped core; the core is empty exactly when all the tasks are finished, with their effects visible.",
         over=["schedules", "inputs", "histories"], quant="all interleavings of 1-2 workers with 1-2 waking and closing threads up to 1-2 preemptions, for all combinations of 5 behaviours of the task; up to 7 tasks with the batch sizes of the core reduced to 2-3",
         why="lost wakeups and double executions need a particular interleaving of a few instructions of the waker with the scheduling worker, while a stress test mostly takes the same fast path",
         files=CORE, mechanism=["IOTask::PostWakeup", "IOTask::PostClose", "IOCore::PrivScheduleDo", "IOCore::PrivExecute", "IOCoreWorker::Run", "IOCore::Stop", "IOCore::WaitEmpty"],
         scenarios=[
             S("iotask", "iotask_wakeup", r(1, 40), r(2, 3600)),
             S("iotask", "iotask_close", r(2, 40), r(3, 3600)),
             S("iotask", "iotask_deadline", r(1, 40), r(2, 3600)),
             S("iotask", "iotask_reuse", r(1, 40), r(2, 3600)),
             S("iotask", "iotask_stop", r(1, 40), r(2, 3600)),
             S("iotask", "iotask_empty", r(2, 40), r(3, 1800)),
             S("iotaskb", "iotask_many", r(1, 40), r(2, 3600)),
             S("iotask", "iotask_socket", r(1, 30, workers=1, bytes=1), r(1, 3600)),
             S("iotask", "iotask_socket", r(0, 20), r(1, 3600)),
             S("iotask", "iotask_socket_close", r(1, 20), r(2, 3600)),
             S("iotask", "iotask_stop_wait", r(3, 20), r(4, 1800)),
             S("iotask", "iotask_unused", r(0)),
             S("uiotask", "iotask_wakeup", r(1, 30), r(2, 3600)),
             S("uiotask", "iotask_close", r(1, 30), r(2, 3600)),
             S("uiotask", "iotask_deadline", r(1, 30), r(2, 3600)),
             S("uiotask", "iotask_reuse", r(1, 30), r(2, 3600)),
             S("uiotask", "iotask_stop", r(1, 30), r(2, 3600)),
             S("uiotask", "iotask_empty", r(1, 30), r(2, 1800)),
             S("uiotaskb", "iotask_many", r(1, 30), r(2, 3600)),
             S("uiotask", "iotask_socket", r(0, 20), r(1, 3600)),
             S("uiotask", "iotask_socket_close", r(1, 20), r(2, 3600)),
             S("uiotask", "iotask_stop_wait", r(3, 20), r(4, 1800)),
             S("uiotask", "iotask_unused", r(0)),
         ])
    NARROW = [("mg/net/Buffer.h", r"theBufferCopySize = 1024 - sizeof\(Buffer\)", "theBufferCopySize = 3"), ("mg/net/Buffer.h", r"static_assert\(sizeof\(BufferCopy\) == 1024.*", "")]
    GROUPS["tcp"] = dict(harness=["h_tcp.cpp"], dirs=["box", "net", "aio"], libs=ssl, edits=NARROW)
    GROUPS["life"] = dict(harness=["h_tcplife.cpp"], dirs=["box", "net", "aio"], libs=ssl, edits=NARROW)
    GROUPS["server"] = dict(harness=["h_tcpserver.cpp"], dirs=["box", "net", "aio"], libs=ssl)
    uring("tcp")
    uring("life")
    uring("server")
    GROUPS["ssl"] = dict(harness=["h_ssl.cpp"], dirs=["box", "net", "aio"], exclude=r"mg/net/SSL[A-Za-z]*\.cpp$",
                         edits=NARROW + [("mg/net/SSLStream.h", r"(?s)\A.*\Z", '#include "fake_ssl.h"\n'),
                                         ("mg/box/IOVec.h", r"theIOVecMaxCount = 128", "theIOVecMaxCount = 2")])
    uring("ssl")
    GROUPS["slife"] = dict(GROUPS["ssl"], harness=["h_ssllife.cpp"])
    uring("slife")
    GROUPS["app"] = dict(harness=["h_app.cpp"], dirs=["box", "net", "aio", "sch", "sio"], libs=ssl, edits=NARROW)
    uring("app")
    SOCK = ["src/mg/aio/TCPSocket.cpp", "src/mg/aio/TCPSocketIFace.cpp", "src/mg/aio/TCPSocketCtl.cpp", "src/mg/aio/IOTask_epoll.cpp", "src/mg/aio/IOTask_iouring.cpp", "src/mg/aio/IOCore_iouring.cpp", "src/mg/aio/IOTask.cpp", "src/mg/net/Buffer.cpp"]
    prop("A02", title="A TCP socket delivers the bytes in order, each once, and never gets stuck",
         statement="The bytes given to a TCP socket for sending - copied, referenced or moved, from any callbacks or from any threads, also before the connection - reach the peer in the order they were given, each exactly once, and are reported in OnSend exactly once; the received bytes are handed over in OnRecv in order, each exactly once, and what the callback has left is given again with the next portion. "
                   "All of that progresses as long as the peer does and receipts are requested, regardless of how the network splits the data and of which callback or thread has requested the transfer. The callbacks of a socket never overlap and see each other's effects. "
                   "A socket opened again after a closure starts clean: no data, requests or errors of the previous life get into the next one, while what is given after the opening - before or after the start, in the closing callback or in any thread - belongs to the new life.",
         over=["schedules", "inputs", "histories"], quant="all interleavings of 1-2 workers, a peer and a posting thread up to 1-2 preemptions, 6 ways of driving the socket x 4 kinds of buffers, with short reads and writes and full peer buffers",
         why="a stall needs the data to arrive at a particular moment relative to the edge-triggered notification; loss or reordering needs partial writes at particular offsets of a chain of buffers",
         files=SOCK, mechanism=["TCPSocket::PrivSend", "TCPSocket::PrivRecv", "TCPSocketIFace::PrivCtl", "TCPSocketIFace::PostSendMove", "TCPSocketIFace::PostRecv", "IOTask::Send", "IOTask::Recv"],
         scenarios=[
             S("tcp", "tcp_stream", r(1, 60, mode=0), r(2, 3600, mode=0)),
             S("tcp", "tcp_stream", r(1, 40, size=6), r(2, 3600)),
             S("tcp", "tcp_stream", r(0, 60, D=2, faults=1), r(1, 3600, D=2, faults=1)),
             S("tcp", "tcp_stream", r(0, 60, D=1, faults=129), r(1, 3600, D=1, faults=129)),
             S("tcp", "tcp_pair", r(1, 40), r(2, 3600)),
             S("utcp", "tcp_stream", r(1, 40, mode=0), r(2, 3600, mode=0)),
             S("utcp", "tcp_stream", r(0, 40, D=1, mode=-2, faults=129), r(1, 3600, D=2, faults=129)),
             S("utcp", "tcp_pair", r(1, 40, pump=1), r(2, 3600, pump=1)),
             S("ssl", "sock_reopen", r(1, 50, kind=0), r(2, 3600, kind=0)),
            S("ssl", "sock_reopen", r(0, 20, kind=0, late=3, workers=2), r(1, 3600, kind=0, late=3, workers=2)),
             S("ussl", "sock_reopen", r(0, 30, kind=0), r(2, 3600, kind=0)),
         ])
    prop("A03", title="A TCP socket reports connects and errors correctly and closes exactly once",
         statement="Each life of a TCP socket, plain or SSL, - connecting to an IP address or a domain, in its own or a given descriptor, with or without a delay, right away or from an empty task, or wrapping a connected descriptor - ends with OnClose, exactly once and as the last callback, after which the socket is freed or can be opened again. OnConnect comes at most once, not before the delay, before any data, and never after an error; a failed connect gives an error (with the proper code for name resolution failures) and no OnConnect; a specific error is followed by the generic one, which comes at most once. "
                   "A close, a deletion, and a shutdown followed by the peer's (with a receipt requested) by any thread at any moment of the life always end it, a repeated one is harmless. All descriptors and memory are released.",
         over=["schedules", "inputs", "histories", "faults"], quant="9 targets x 6 behaviours x 7 interferences (or pairs of them from two threads), all interleavings up to 1 preemption, with failures of socket(), connect(), send() and receive at any call (1-2 of them)",
         why="the closing races with the name resolution, the connect, the handshake and the transfers in windows of a few instructions which the tests do not hit, with the failures of system calls they can not make",
         files=SOCK + ["src/mg/net/DomainToIP.cpp"], mechanism=["TCPSocketIFace::PostConnect", "TCPSocketIFace::Connect", "TCPSocketIFace::PostClose", "TCPSocketIFace::PostShutdown", "TCPSocketIFace::ProtClose", "TCPSocketCtl::DoConnect", "TCPSocketCtl::DoShutdown", "TCPSocketCtlDomainRequest::Cancel"],
         scenarios=[
             S("life", "tcp_life", r(1, 60, ext=1, warm=1), r(2, 3600, ext=1, warm=1)),
             S("life", "tcp_life", r(1, 40, ext=0, lives=2, delay=1), r(2, 3600, ext=0, lives=3, delay=1)),
             S("life", "tcp_life", r(0, 40, ext=2, delay=2), r(1, 3600, ext=2, delay=2)),
             S("life", "tcp_life", r(1, 40, D=2, ext=1, faults=63), r(1, 3600, D=2, ext=1, faults=63)),
             S("life", "tcp_life", r(0, 60, ext=2), r(1, 3600, ext=2)),
             S("life", "tcp_life", r(0, 40, ext=1, workers=2), r(1, 3600, ext=1, workers=2)),
             S("ulife", "tcp_life", r(0, 30, ext=1, warm=1), r(1, 3600, ext=1, warm=1)),
             S("ulife", "tcp_life", r(0, 30, D=1, ext=1, faults=63), r(1, 3600, D=2, ext=1, faults=63)),
             S("ulife", "tcp_life", r(1, 60, ext=0), r(2, 3600, ext=1)),
             S("ulife", "tcp_life", r(0, 30, ext=0, lives=2, delay=1), r(1, 3600, ext=0, lives=3, delay=1)),
            S("slife", "tcp_life", r(0, 20, ext=2, delay=1), r(1, 3600, ext=2, delay=1)),
            S("slife", "tcp_life", r(0, 20, ext=0, lives=2, delay=1), r(1, 3600, ext=0, lives=3, delay=1)),
            S("slife", "tcp_life", r(0, 20, D=1, ext=1, faults=63), r(1, 3600, D=2, ext=1, faults=63)),
         ])
    prop("A04", title="A TCP server accepts each client once, survives broken ones, closes exactly once",
         statement="Each client connected to a listening server is accepted exactly once, with its own address and a non-blocking descriptor; failures of accept() caused by broken connections or interruptions neither stop the server nor lose the other clients. Callbacks do not overlap. A close by any threads at any moment, also from a callback, any number of times, gives exactly one OnClose, as the last callback. A failed bind or listen is reported and leaks nothing, a not listening server is closed silently. No descriptor of a client is lost, even of the one who comes during the closing.",
         over=["schedules", "inputs", "faults"], quant="2-3 clients, 1-2 workers, 4 kinds of closers, all interleavings up to 1-2 preemptions, each of 10 network errors of accept() at any call (up to 2)",
         why="the errors of accept() can not be provoked by a test, and a lost client or a double close needs a particular moment relative to the edge-triggered notification",
         files=["src/mg/aio/TCPServer.cpp", "src/mg/aio/IOTask_epoll.cpp", "src/mg/aio/IOTask_iouring.cpp", "src/mg/aio/IOTask.cpp", "src/mg/net/Socket_Unix.cpp"], mechanism=["TCPServer::OnEvent", "TCPServer::PostClose", "TCPServer::Bind", "TCPServer::Listen", "IOTask::Accept", "SocketIsAcceptErrorCritical"],
         scenarios=[
             S("server", "server_accept", r(1, 40), r(2, 3600)),
             S("server", "server_accept", r(0, 40, D=2, faults=512), r(1, 3600, D=2, faults=512)),
             S("server", "server_accept", r(0, 30, workers=2), r(1, 3600, workers=2, clients=3)),
             S("server", "server_unused", r(0)),
             S("userver", "server_accept", r(1, 40), r(2, 3600)),
             S("userver", "server_accept", r(0, 40, D=2, faults=512), r(1, 3600, D=2, faults=512)),
             S("userver", "server_accept", r(0, 30, workers=2), r(1, 3600, workers=2, clients=3)),
             S("userver", "server_unused", r(0)),
         ])
    prop("A05", title="SSL sockets connect after handshake, transfer each byte once, fail on garbage",
         statement="An SSL socket of either side is reported as connected once, after its handshake is finished and before any data; no application data is given before that or without a request, even if it has arrived together with the end of the handshake. Then each sent byte is delivered exactly once, in order and encrypted, and is reported as sent exactly once in units of the application, whatever the segmentation, the buffer sizes and the speed of the peer are. "
                   "Encryption enabled in the middle of the stream by any callback leaves everything sent before plain and encrypts everything after. "
                   "A broken handshake or a corrupted record gives one error and a closure, without false data; a disappearing or resetting peer and a close or shutdown by any thread at any moment, also inside the handshake, end the socket with one OnClose and never with a connect after an error. No descriptors are lost. "
                   "A socket opened again after a closure starts clean, plain or encrypted as asked: no data, requests or errors of the previous life get into the next one, while what is given after the opening - before or after the start, in the closing callback or in any thread - belongs to the new life.",
         over=["schedules", "inputs", "histories", "faults"], quant="2 sockets x 32 modes of transfer, 372 plans of enabling the encryption, a peer disappearing, resetting or corrupting the stream at each byte x 5 segmentations x 4 interferences; all interleavings up to 1 preemption, short and failing transfers at any call; the cipher is replaced by a small one",
         why="how the handshake and the records are split between the receipts, and when the user code comes in between, is decided by the network; the tests use whole messages over the loopback",
         files=["src/mg/aio/SSLSocket.cpp", "src/mg/aio/SSLSocket.h", "src/mg/aio/TCPSocketIFace.cpp", "src/mg/aio/TCPSocketCtl.cpp", "src/mg/net/Buffer.cpp"], mechanism=["SSLSocket::OnEvent", "SSLSocket::PrivHandshake", "SSLSocket::PrivCipherPopulate", "SSLSocket::PrivRecvCommit", "SSLSocket::Encrypt", "TCPSocketIFace::PrivCtl"],
         scenarios=[
             S("ssl", "ssl_pair", r(1, 20, chunk=1), r(2, 3600, chunk=1)),
             S("ssl", "ssl_pair", r(1, 40, workers=2, chunk=1, size=2), r(1, 3600, workers=2, chunk=1, size=4)),
             S("ssl", "ssl_pair", r(0, 20, size=20, chunk=20, cap=8), r(1, 3600, size=20, chunk=20, cap=8)),
             S("ssl", "ssl_pair", r(0, 20, D=1, size=6, chunk=5, how=1, faults=193), r(0, 3600, D=2, size=6, chunk=5, how=2, faults=193)),
             S("ssl", "ssl_fly", r(1, 30), r(2, 3600)),
             S("ssl", "ssl_fly", r(0, 30, D=1, faults=65), r(0, 3600, D=2, faults=65)),
             S("ssl", "ssl_cut", r(0, 40), r(1, 3600)),
             S("ssl", "ssl_cut", r(0, 30, workers=2, split=3), r(1, 3600, workers=2, split=3)),
             S("ssl", "ssl_cut", r(1, 30, split=3, what=3), r(2, 3600, split=3)),
             S("ssl", "ssl_cut", r(0, 40, D=1, faults=7), r(1, 3600, D=1, faults=71)),
             S("ussl", "ssl_pair", r(1, 30, chunk=1, pump=1), r(2, 3600, chunk=1, pump=1)),
             S("ussl", "ssl_pair", r(0, 20, D=1, size=6, chunk=5, how=1, faults=193), r(0, 3600, D=2, size=6, chunk=5, how=2, faults=193)),
             S("ussl", "ssl_fly", r(1, 30), r(1, 3600, pump=1)),
             S("ussl", "ssl_cut", r(1, 30, split=3, what=3), r(2, 3600, split=3, pump=1)),
             S("ussl", "ssl_cut", r(0, 40, D=1, faults=7), r(1, 3600, D=1, faults=71)),
             S("ssl", "sock_reopen", r(1, 30, kind=1), r(2, 3600, kind=1)),
             S("ssl", "sock_reopen", r(1, 20, kind=2), r(2, 3600, kind=2)),
            S("ssl", "sock_reopen", r(1, 20, kind=2, late=3), r(2, 3600, kind=2, late=3)),
            S("slife", "tcp_life", r(0, 20, ext=1, warm=1), r(1, 3600, ext=1, warm=1)),
             S("ussl", "sock_reopen", r(0, 30, kind=1), r(2, 3600, kind=1)),
             S("ussl", "sock_reopen", r(0, 30, kind=2), r(2, 3600, kind=2)),
         ])
    prop("E01", title="Tasks, sockets, queues and resolution compose: each request is answered once",
         statement="An application composed as documented - coroutine tasks of a scheduler submitting requests through a lock-free queue to a shared client socket, a server answering them, responses coming back as task signals, with or without deadlines - answers each request exactly once with its own response, whatever the interleaving of the scheduler, the I/O workers, the connect and the network is. "
                   "The same holds between the polled and the event-driven sockets on any side, and for tasks which limit name resolutions with their deadlines and cancel them. When everything is closed, by the last task or by the owner, each part is closed once, the core and the scheduler get empty, and no descriptors are left.",
         over=["schedules", "inputs"], quant="all interleavings of the controlling thread, 1-2 scheduler workers, 1-2 I/O workers and the resolving thread up to 1-2 preemptions; 1-2 requests of 1-2 sub-requests, one by one or in bulk, with or without deadlines, on connected and connecting sockets, closed by 2 sides; both backends",
         why="the parts are tested separately; a wakeup lost between two of them needs a particular interleaving of 3-4 threads",
         files=["src/mg/sch/TaskScheduler.cpp", "src/mg/sch/Task.cpp", "src/mg/aio/IOCore.cpp", "src/mg/aio/TCPSocketIFace.cpp", "src/mg/aio/TCPServer.cpp", "src/mg/box/MultiProducerQueueIntrusive.h", "src/mg/net/DomainToIP.cpp", "src/mg/sio/TCPSocket.cpp", "src/mg/sio/TCPServer.cpp"],
         mechanism=["Task::PostSignal", "Task::AsyncReceiveSignal", "TCPSocketIFace::PostWakeup", "TCPSocketIFace::OnEvent", "MultiProducerQueueIntrusive::Push", "TCPServer::OnEvent", "DomainToIPCancel"],
         scenarios=[
             S("app", "app_pipeline", r(1, 60), r(2, 3600)),
             S("app", "app_pipeline", r(0, 40, io=2, requests=1), r(1, 3600, io=2)),
             S("app", "app_pipeline", r(0, 30, workers=2), r(1, 3600, workers=2)),
             S("uapp", "app_pipeline", r(1, 60), r(2, 3600)),
             S("uapp", "app_pipeline", r(0, 30, pump=1, requests=1), r(1, 3600, pump=1)),
             S("app", "app_polled", r(2, 30), r(3, 1800)),
             S("uapp", "app_polled", r(2, 30), r(3, 1800)),
             S("app", "app_resolve", r(2, 40), r(3, 1800)),
             S("app", "app_resolve", r(0, 30, workers=2, requests=3), r(1, 1800, workers=2)),
         ])
