from props_box import q


def r(P, time=40, D=0, **kw):
    kw["reduce"] = 1
    return q(P, time, D, **kw)


FILES = ["src/mg/sch/TaskScheduler.cpp", "src/mg/sch/TaskScheduler.h", "src/mg/sch/Task.cpp", "src/mg/sch/Task.h"]


def register_sch(prop, S, GROUPS):
    GROUPS["sched"] = dict(harness=["h_sched.cpp"], dirs=["box", "sch"])
    prop("S01", title="Every posted task is executed exactly once per post, one thread at a time",
         statement="Whoever posts a task - external threads before or after the start of the scheduler, the task itself, another task - each post leads to exactly one execution, for any number of workers and any sub-queue size including 1. "
                   "A task is never executed by two workers at once, each execution sees the effects of the previous one and of what the poster did before the post, the task may be deleted or re-posted from its own callback, and one-shot callbacks run once and are freed. "
                   "A task may travel between schedulers.",
         over=["schedules"], quant="all interleavings of 1-2 workers, 2 posting threads and 1-3 tasks with re-posts and posts of each other, sub-queue sizes 1-2, up to the preemption bound",
         why="loss, duplication and stalls depend on how the front queue, the migrating scheduler role and the sleeping workers interleave; a lost wakeup is a hang in one schedule out of millions",
         files=FILES, mechanism=["TaskScheduler::Post", "TaskScheduler::PrivSchedule", "TaskScheduler::PrivExecute", "TaskSchedulerThread::Run"],
         scenarios=[
             S("sched", "sched_exec", r(1, scripts=7), r(2, 3600, scripts=7)),
             S("sched", "sched_exec", r(3, 60, workers=1, scripts=7), r(4, 3600, workers=1, scripts=7)),
             S("sched", "sched_mix", r(0, 60), r(0, 1200, tasks=6)),
             S("sched", "sched_mix", r(1, workers=1, tasks=4), r(2, 2400, workers=1, tasks=4)),
             S("sched", "sched_one_shot", r(2), r(3, 900)),
             S("sched", "sched_two", r(2), r(3, 900)),
         ])
    prop("S02", title="Task signals and wakeups are never lost and never invented",
         statement="A signal posted to a task at any moment - before its post, while it waits with or without a deadline, when its deadline is just expiring, or during its execution - makes it run without a delay and is received exactly once, with everything written by the sender before visible. "
                   "Signals sent several times before a receipt collapse into one. After the receipt the sender does not touch the task anymore, so it may be deleted at once. A wakeup of a waiting or pending task leads to an execution without a delay and causes no extra executions.",
         over=["schedules"], quant="all interleavings of one or two senders or wakers with the posting thread, 1-2 workers and a task waiting in several ways, up to the preemption bound",
         why="the task status machine is updated by the wakers and by the scheduler with single atomic steps in between which tests practically never interleave",
         files=FILES, mechanism=["Task::PostSignal", "Task::PostWakeup", "Task::ReceiveSignal", "TaskScheduler::PrivSchedule"],
         scenarios=[
             S("sched", "sched_signal", r(2, 60, workers=1, reposts=3, wakes=2), r(3, 3600, workers=1, reposts=3, wakes=2)),
             S("sched", "sched_signal", r(1, 60, workers=2, reposts=2, wakes=1), r(1, 3600, workers=2, reposts=4, wakes=2)),
             S("sched", "sched_signal_two", r(1), r(2, 3600)),
             S("sched", "sched_signal_two", r(2, workers=1), r(3, 3600, workers=1)),
             S("sched", "sched_self_signal", r(2), r(3, 1200)),
         ])
    prop("S03", title="A task with a deadline runs neither before it nor late, unless woken up",
         statement="A task posted with a delay or a deadline is not executed before it unless woken up or signaled, and an idle scheduler executes it as soon as the deadline comes. The expiration flag tells exactly whether the deadline has passed, the deadline is reset at each execution, "
                   "delay/deadline adjustments keep the earliest one, a single worker executes due tasks in deadline order, far and infinite deadlines do not fire, and a wakeup racing with the expiration causes one execution per post.",
         over=["schedules", "inputs"], quant="all interleavings of 1-2 workers and 2 tasks with wakers; all combinations of up to 4 tasks with deadlines of a boundary alphabet",
         why="the waiting heap, the timed sleep of the scheduler role and the wakers meet in few-instruction windows; late or early timers only appear for particular deadline sets",
         files=FILES + ["src/mg/box/BinaryHeap.h"], mechanism=["Task::SetDelay", "Task::AdjustDeadline", "TaskScheduler::PrivSchedule", "Task::PrivExecute"],
         scenarios=[
             S("sched", "sched_deadline", r(1), r(2, 2400)),
             S("sched", "sched_deadline_order", r(0), r(0, 2400, tasks=5)),
             S("sched", "sched_deadline_wakeup", r(1), r(2, 2400)),
             S("sched", "sched_deadline_wakeup", r(3, workers=1), r(4, 2400, workers=1)),
             S("sched", "sched_deadline", r(2, 40, workers=1), r(3, 2400, workers=1, tasks=3)),
             S("sched", "sched_deadline", r(0, 40, 1, tick=3), r(1, 1800, 2, tick=3)),
             S("sched", "sched_expire_many", r(0, 60), r(1, 1800)),
             S("sched", "sched_expire_many", r(1, 60, tasks=3), r(2, 1800, tasks=2, workers=2)),
         ])
    prop("S04", title="Tasks of one poster start in the order of their posts",
         statement="Tasks ready to run posted by the same thread are started in the order of the posts: strictly with one worker, and with N workers a task is never started while N or more tasks posted earlier by the same thread are not started. It does not depend on the sub-queue size and on how many tasks are posted at once.",
         over=["schedules"], quant="all interleavings of two posters and 1-2 workers with up to 6 tasks and sub-queue sizes 1-3 up to the preemption bound",
         why="reversed or skipped batches show up only when the scheduler role takes the front queue in the middle of a series of posts or when a sub-queue is just full",
         files=FILES + ["src/mg/box/MultiConsumerQueueBase.cpp"], mechanism=["TaskScheduler::PrivSchedule", "MultiConsumerQueue::PushPending"],
         scenarios=[S("sched", "sched_fifo", r(1), r(2, 3600)), S("sched", "sched_fifo", r(3, workers=1), r(4, 3600, workers=1))])
    prop("S05", title="Scheduler emptiness, stop, restart and destruction lose no tasks",
         statement="The scheduler says it is empty only when all the tasks posted before and everything they posted themselves are finished, and their effects are visible then; waiting for emptiness respects its limit. "
                   "A stop at any moment returns when no task is being executed anymore, loses and doubles nothing: what was posted before, and while stopped, is executed after the next start. Neither a stop nor an emptiness check waits for deadlines. The destructor waits for all the pending and delayed tasks.",
         over=["schedules"], quant="all interleavings of the controlling thread with 1-2 workers executing 1-3 tasks up to the preemption bound",
         why="the emptiness check reads several queues and worker states which move while it looks; the wrong answer needs 3-4 precise switches",
         files=FILES + ["src/mg/box/InterruptibleMutex.h"], mechanism=["TaskScheduler::IsEmpty", "TaskScheduler::WaitEmpty", "TaskScheduler::Stop", "TaskScheduler::Start", "TaskScheduler::~TaskScheduler"],
         scenarios=[
             S("sched", "sched_empty", r(1, scripts=5), r(2, 3600, scripts=5)),
 S("sched", "sched_empty_waiting", r(2, 40), r(3, 1800, tasks=4, workers=2)),
             S("sched", "sched_empty_gate", r(3, 60), r(3, 3600, tasks=2)),
             S("sched", "sched_destroy", r(1), r(2, 1800)),
             S("sched", "sched_wait_limit", r(0), r(1, 1800)),
             S("sched", "sched_restart", r(1), r(2, 3600)),
             S("sched", "sched_stop_wait", r(1), r(3, 1800)),
         ])
    prop("S06", title="Coroutine tasks resume where they stopped and exit without use-after-free",
         statement="A coroutine task continues exactly where it was suspended, with its locals, on the chosen scheduler, through yields and nested calls. Waiting for a signal returns whether one was received: never a missed one, never an early timeout. "
                   "Exits (delete, continue as a plain callback, send a signal to the destroyer) destroy the whole coroutine stack exactly once, before the callback or the signal, never execute the code after them, also from a nested call, and the task may be deleted immediately by whoever is notified.",
         over=["schedules"], quant="all interleavings of 1-2 workers with a signaler, a waker and a destroying thread over all exit kinds up to the preemption bound",
         why="a resumed coroutine races with the end of its own suspension on another worker; the windows are a few instructions wide",
         files=["src/mg/sch/Task.cpp", "src/mg/sch/Task.h", "src/mg/box/Coro.cpp"], mechanism=["TaskCoroOpYield", "TaskCoroOpReceiveSignal", "TaskCoroOpExitDelete", "TaskCoroOpExitExec", "TaskCoroOpExitSendSignal"],
         scenarios=[
             S("sched", "sched_coro_exit", r(1), r(3, 1800)),
             S("sched", "sched_coro_signal", r(1), r(2, 2400)),
             S("sched", "sched_coro_exit", r(3, workers=1), r(4, 1800, workers=1)),
             S("sched", "sched_coro_signal", r(2, workers=1), r(3, 1800, workers=1)),
             S("sched", "sched_coro_two", r(2), r(3, 900)),
             S("sched", "sched_coro_destroy", r(2), r(3, 900)),
         ])
