def q(P, time=20, D=0, **kw):
    d = dict(P=P, time=time, D=D)
    flags = {k: kw.pop(k) for k in ("timers", "spurious", "horizon", "acc", "reduce") if k in kw}
    d.update(flags)
    d["params"] = kw
    return d


def register_box(prop, S, GROUPS):
    prop("B01", title="A sent signal is received exactly once, never lost, and carries its data",
         statement="After a signal is sent, some receiver obtains it: a blocked or timed receiver wakes up, several sends before one receipt collapse into one, and no send is obtained more than once. "
                   "The receiver sees everything written by the sender before the send and may destroy the signal immediately after the receipt even while the sender is still returning from its call. "
                   "A timed receipt never gives up before its limit and gives up when the limit passes, for any limit including zero, infinite and out-of-range ones.",
         over=["schedules", "inputs"], quant="all interleavings of 1-2 senders and 1-2 receivers using blocking, timed and polling receipts; all time limits of a boundary alphabet",
         why="tests run a handful of schedules; the lost wakeup and use-after-free windows are a few instructions wide and the limit arithmetic only breaks at extreme values",
         files=["src/mg/box/Signal.cpp", "src/mg/box/Signal.h", "src/mg/box/ConditionVariable.cpp"],
         mechanism=["Signal::Send", "Signal::ReceiveBlocking", "Signal::ReceiveTimed", "Signal::Receive"],
         scenarios=[
             S("signal", "delete_after_receive", q(4, spurious=1, D=1), q(20, 600, spurious=1, timers=1, D=3)),
             S("signal", "drain_two_senders", q(3), q(6, 900, spurious=1, timers=1, D=2)),
             S("signal", "drain_resend", q(4), q(20, 600, spurious=1, D=2)),
             S("signal", "broadcast_by_resend", q(3), q(6, 600, spurious=1, D=2)),
             S("signal", "one_send_two_receivers", q(3), q(5, 900, spurious=1, timers=1, D=2)),
             S("signal", "timed_limits", q(1), q(3)),
             S("signal", "timed_prompt", q(3), q(4)),
         ])
    prop("B02", title="Interruptible mutex: exclusion, prompt main-thread takeover, nobody stuck",
         statement="At most one thread is inside the critical section of an interruptible mutex at any time, and each entrant sees the writes of the previous holder. "
                   "When the privileged thread requests the lock, the current holder is interrupted and the privileged thread gets the lock next, and afterwards every waiting thread still gets its turn: no schedule leaves a thread blocked forever on a free mutex.",
         over=["schedules"], quant="all interleavings of one privileged thread and 1-2 worker threads over 1-2 lock rounds up to the preemption bound",
         why="the lock hand-over state machine has several flags updated by different threads; only particular interleavings of request, hand-over and release lose a wakeup or admit two holders",
         files=["src/mg/box/InterruptibleMutex.h", "src/mg/box/InterruptibleMutex.cpp"],
         mechanism=["InterruptibleMutex::Lock", "InterruptibleMutex::TryLock", "InterruptibleMutex::Unlock"],
         scenarios=[
             S("mutex", "imutex_takeover", q(2), q(4, 1800, spurious=1, D=1)),
             S("mutex", "imutex_takeover", q(3, workers=1), q(6, 1800, workers=1)),
             S("mutex", "imutex_handover", q(3), q(4, 1800)),
         ])
    prop("B03", title="Mutex excludes, condition variables never lose a notification",
         statement="Two threads never hold the same mutex at once and the state it protects is always seen consistently; ownership queries, lock assertions and contention statistics are right. "
                   "A thread waiting on a condition variable atomically releases the mutex, owns it again on return, is woken by a later notification (one waiter per signal, all per broadcast), and a timed wait returns a timeout only after its limit passed, for any limit value.",
         over=["schedules", "inputs"], quant="all interleavings of 2-3 threads over lock, try-lock, wait, timed wait, signal and broadcast; all limits of a boundary alphabet",
         why="lost wakeups, ownership races and limit overflows need one specific interleaving or an extreme value that sampled tests never hit",
         files=["src/mg/box/Mutex.h", "src/mg/box/Mutex.cpp", "src/mg/box/ConditionVariable.h", "src/mg/box/ConditionVariable.cpp"],
         mechanism=["Mutex::Lock", "Mutex::TryLock", "ConditionVariable::Wait", "ConditionVariable::TimedWait"],
         scenarios=[
             S("mutex", "mutex_exclusion", q(3), q(6, 900)),
             S("mutex", "cond_bounded_buffer", q(3), q(5, 1200, spurious=1, D=1)),
             S("mutex", "cond_broadcast", q(3, spurious=1, D=1), q(6, 900, spurious=1, D=2)),
             S("mutex", "cond_timed_limits", q(1), q(3)),
             S("mutex", "mutex_stat", q(0), q(1)),
         ])

    prop("B04", title="MPSC queue delivers every element exactly once, in each producer's order",
         statement="Elements pushed by any number of concurrent producers are all obtained by the single consumer: each exactly once, those of one producer in its push order, and those of a finished push before those of a push started later. "
                   "A push reports that the queue was empty exactly when the consumer may need a wakeup, so a consumer which sleeps on an empty queue and is woken only by such pushes never misses an element. Reversed and bulk pops and pushes keep the same contract.",
         over=["schedules", "operation sequences"], quant="all interleavings of 2-3 producers with single and bulk pushes against one popping consumer; all sequential operation sequences to a depth",
         why="the lock-free head exchange and the first-push wakeup contract fail only when a pop interleaves a push between two instructions",
         files=["src/mg/box/MultiProducerQueueIntrusive.h"],
         mechanism=["MultiProducerQueueIntrusive::Push", "MultiProducerQueueIntrusive::PushManyFastReversed", "MultiProducerQueueIntrusive::PopAll", "MultiProducerQueueIntrusive::PopAllFastReversed"],
         scenarios=[
             S("queue", "mpq_signaled", q(3), q(5, 1200)),
             S("queue", "mpq_polled", q(3), q(5, 1200)),
             S("queue", "mpq_signaled", q(1, 30, prods=3), q(3, 1800, prods=3)),
             S("queue", "mpq_sequences", q(0, depth=6), q(0, 900, depth=8)),
         ])
    prop("B05", title="MCSP queue: exactly-once FIFO delivery to concurrent consumers",
         statement="Elements pushed to the multi-consumer queue are each popped by exactly one consumer, in push order when pops do not overlap, and none is lost when consumers attach, detach, sleep until the count is non-zero, or lag behind on old blocks. "
                   "The element count never under-reports finished pushes, blocks are recycled only when no consumer can touch them, and memory is bounded by what is in use.",
         over=["schedules", "operation sequences"], quant="all interleavings of a producer and 1-3 consumers over blocks of 1-2 elements; all sequential operation sequences to a depth",
         why="block recycling and the lagging-consumer protocol break only when a consumer is stopped between two loads while others exhaust and reuse the block",
         files=["src/mg/box/MultiConsumerQueueBase.cpp", "src/mg/box/MultiConsumerQueueBase.h", "src/mg/box/MultiConsumerQueue.h"],
         mechanism=["MultiConsumerQueueBase::PrivPush", "MultiConsumerQueueBase::PrivPop", "MultiConsumerQueueBase::PrivReserve", "MultiConsumerQueueBaseConsumer::Detach"],
         scenarios=[
             S("queue", "mcq_concurrent", q(3, 60), q(4, 2400)),
             S("queue", "mcq_concurrent", q(2, 40, scripts=3, cons=3, maxsize=1), q(3, 2400, cons=3)),
             S("queue", "mcq_signaled", q(3), q(5, 1800)),
             S("queue", "mcq_warm", q(3, 40), q(4, 2400)),
             S("queue", "mcq_sequences", q(0, 40, depth=6), q(0, 1800, depth=8)),
         ])
    prop("B06", title="Thread-local pool never shares a live block and keeps cached memory usable",
         statement="An object allocated from a thread-local pool never overlaps another live object, whichever threads allocate and free; freeing in another thread hands the memory over safely. "
                   "Memory cached by a thread is returned to the global pool when the thread ends and is reused before new memory is allocated: repeating the same work does not grow the memory use.",
         over=["schedules", "operation sequences"], quant="all interleavings of 2-3 threads allocating, freeing and exiting; all sequential allocate/free/thread sequences to a depth",
         why="double hand-out and leaks need a particular order of batch hand-over, pops and thread exits",
         files=["src/mg/box/ThreadLocalPool.h"],
         mechanism=["ThreadLocalPool::AllocateT", "ThreadLocalPool::FreeT", "ThreadLocalPool::~ThreadLocalPool", "ThreadGlobalPool"],
         scenarios=[
             S("mem", "pool_threads", q(3), q(5, 1200)),
             S("mem", "pool_balance", q(2), q(3, 900)),
             S("mem", "pool_sequences", q(0, 40, depth=6), q(0, 1200, depth=9)),
         ])
    prop("B07", title="Shared objects are deleted exactly once, after their last reference",
         statement="An object held by shared pointers or a reference counter is destroyed exactly once, when the last reference goes away and never earlier, under any sequence of copies, moves, assignments (including self, base/derived and null ones), resets and wraps and any interleaving of threads. "
                   "The destroying thread sees everything other holders did to the object.",
         over=["schedules", "operation sequences"], quant="all operation sequences on three pointers to a depth; all interleavings of 2-3 threads copying and dropping references",
         why="leaks and double frees hide in rare operand combinations, missing ordering in the last-reference race",
         files=["src/mg/box/SharedPtr.h", "src/mg/box/RefCount.h"],
         mechanism=["SharedPtr::Set", "SharedPtr::operator=", "RefCount::Dec"],
         scenarios=[
             S("mem", "shared_ptr_sequences", q(0, 40, depth=5), q(0, 1800, depth=6)),
             S("mem", "shared_ptr_threads", q(4, users=3), q(10, 900, users=3)),
         ])
    prop("B08", title="Intrusive lists stay consistent under any sequence of operations",
         statement="After any sequence of operations the singly and doubly linked intrusive lists contain exactly the expected elements in the expected order, with right first, last, emptiness and next/previous links. "
                   "Moves and list merges transfer all the elements, leave the source empty and usable, and never make one list refer to another.",
         over=["operation sequences"], quant="all operation sequences on two lists and four nodes up to a depth, compared with a reference sequence after every step",
         why="pointer damage shows only in specific orders of operations on empty, single-element and moved-from lists",
         files=["src/mg/box/ForwardList.h", "src/mg/box/DoublyList.h"],
         mechanism=["ForwardList::Insert", "ForwardList::Append", "ForwardList::RemoveFirst", "DoublyList::Insert", "DoublyList::Remove", "DoublyList::Append"],
         scenarios=[
             S("struct", "forward_list", q(0, 60, depth=5), q(0, 2400, depth=6)),
             S("struct", "doubly_list", q(0, 60, depth=5), q(0, 2400, depth=6)),
         ])
    prop("B09", title="Binary heaps always expose the extreme element and keep all the others",
         statement="After any sequence of pushes, pops, removals of arbitrary elements, key updates in both directions, reservations and clears, the heap holds exactly the expected elements, its top is an extreme one, every element's stored index is its real position, and draining yields sorted order - for duplicate keys too.",
         over=["operation sequences", "inputs"], quant="all value assignments over a small key alphabet for heaps up to 8 elements, times all single and double operations at every position",
         why="a wrong sift direction shows only for particular shapes and positions",
         files=["src/mg/box/BinaryHeap.h"],
         mechanism=["BinaryHeapImpl::Push", "BinaryHeapImpl::Pop", "BinaryHeapImpl::Remove", "BinaryHeapImpl::Update"],
         scenarios=[
             S("struct", "heap_min", q(0, 40, n=8, vals=3), q(0, 1800, n=10, vals=3)),
             S("struct", "heap_min", q(0, 40, n=5, ops=2), q(0, 1800, n=6, vals=3, ops=3)),
             S("struct", "heap_max", q(0, 40, n=7, vals=3), q(0, 1800, n=10, vals=3)),
             S("struct", "heap_max", q(0, 40, n=5, ops=2), q(0, 1800, n=6, vals=3, ops=3)),
             S("struct", "heap_min_obj", q(0, 40), q(0, 900, n=9)),
             S("struct", "heap_max_obj", q(0, 40), q(0, 900, n=9)),
         ])
    prop("B10", title="Thread start, stop request and join never race or lose a stop",
         statement="A thread's body runs exactly once after a start and not before; a stop requested at any moment by any thread is seen by the body; waiting for the stop returns only when the body finished, with its effects visible; a thread may be deleted right after that. "
                   "State queries are consistent with this from any thread.",
         over=["schedules"], quant="all interleavings of a controller, a second stopper and the thread itself up to the preemption bound",
         why="start/stop/delete races need one precise interleaving",
         files=["src/mg/box/Thread.cpp", "src/mg/box/Thread.h", "src/mg/box/ThreadFunc.h"],
         mechanism=["Thread::Start", "Thread::Stop", "Thread::BlockingStop", "Thread::PrivTrampoline"],
         scenarios=[
             S("thread", "thread_lifecycle", q(3, 40), q(4, 1200)),
             S("thread", "thread_func", q(3), q(4, 900)),
         ])
    prop("B11", title="Coroutine calls run in call-stack order, in bounded stack, freed exactly once",
         statement="A coroutine calling another one is resumed only after the callee finished; whatever the nesting and suspension points, resuming the root continues the innermost suspended call. "
                   "Frames and their locals are destroyed exactly once, as soon as the call ends, or all together if the root is dropped half-way; results are delivered to the caller; long chains of finished calls do not grow the machine stack.",
         over=["operation sequences", "inputs"], quant="all call trees with suspensions and drops up to a call count and depth; long call loops",
         why="tests run a few shapes of call trees",
         files=["src/mg/box/Coro.cpp", "src/mg/box/Coro.h"],
         mechanism=["CoroCtx", "CoroOpCall", "CoroOpFinal", "Coro::~Coro"],
         scenarios=[
             S("thread", "coro_stack", q(0, 40, calls=4, rounds=4), q(0, 1200, calls=5, rounds=6)),
             S("thread", "coro_loop", q(0, 40), q(0, 300)),
         ])
    prop("B12", title="Value helpers are exact on every input",
         statement="Number parsing accepts exactly the decimal numbers (after optional leading spaces) which fit the type and returns their value; trimming and formatting return exactly the expected text without touching memory outside the buffers; "
                   "advancing a scatter/gather vector leaves exactly the remaining bytes; time limits convert between points and durations without overflow, saturating at infinity and at zero; raised errors keep the code, the system value, the cause and the comment.",
         over=["inputs"], quant="all strings over small alphabets up to a length, numbers around every type limit, all vector shapes and offsets, all boundary time values, every errno value",
         why="tests sample a few values; overflow and off-by-one errors live at the boundaries",
         files=["src/mg/box/StringFunctions.cpp", "src/mg/box/IOVec.cpp", "src/mg/box/Time.h", "src/mg/box/Error.cpp"],
         mechanism=["StringToNumber", "StringTrim", "StringVFormat", "IOVecPropagate", "TimeLimit::ToPointFromNow", "ErrorRaise"],
         scenarios=[S("misc", n, q(0, 40, **k), q(0, 1200, **t)) for n, k, t in [
             ("string_to_number", dict(len=6), dict(len=7)), ("string_to_number_limits", {}, {}), ("string_trim", dict(len=7), dict(len=9)),
             ("string_format", {}, {}), ("string_case", {}, {}), ("iovec_advance", dict(vecs=4), dict(vecs=6)), ("time_limits", {}, {}), ("error_codes", {}, {})]])
