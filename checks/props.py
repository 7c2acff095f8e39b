"""What is checked: shared objects (GROUPS) and, per property, its text and scenarios (PROPS)."""

COMMON_ASSUMPTIONS = [
    "interleavings are sequentially consistent; weaker memory orders are covered by the happens-before race detector (a missing release/acquire edge in front of a plain access is reported), not by exploring store buffering or stale relaxed loads",
    "compare-exchange does not fail spuriously",
    "operating system primitives (pthread mutex/condvar/threads, clocks, sockets, epoll, eventfd) are replaced by the engine's model of their documented behaviour",
]

GROUPS = {
    "signal": dict(harness=["h_signal.cpp"], dirs=["box"]),
    "mutex": dict(harness=["h_mutex.cpp"], dirs=["box"]),
    "misc": dict(harness=["h_misc.cpp"], dirs=["box"]),
    "queue": dict(harness=["h_queue.cpp"], dirs=["box"]),
    "struct": dict(harness=["h_struct.cpp"], dirs=["box"]),
    "mem": dict(harness=["h_mem.cpp"], dirs=["box"]),
    "thread": dict(harness=["h_thread.cpp"], dirs=["box"]),
}


def S(group, name, q=None, t=None, **kw):
    d = dict(group=group, name=name, quick=q or {}, thorough=t or q or {})
    d.update(kw)
    return d


PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


from props_box import *  # noqa
register_box(prop, S, GROUPS)
from props_sch import *  # noqa
register_sch(prop, S, GROUPS)
from props_net import *  # noqa
register_net(prop, S, GROUPS)
from props_aio import *  # noqa
register_aio(prop, S, GROUPS)
