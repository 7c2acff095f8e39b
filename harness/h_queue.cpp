// Queues: multi-producer (MPSC) and multi-consumer (MCSP).
#include "mc.h"
#include "mg/box/MultiProducerQueueIntrusive.h"
#include "mg/box/MultiConsumerQueue.h"
#include "mg/box/Signal.h"
#include "mg/box/Thread.h"
#include <string.h>

#define ORACLE __attribute__((section("mcoracle")))

namespace {

//////////////////////////////// multi-producer queue ////////////////////////////////

struct Node
{
	int prod = 0;
	int seq = 0;
	int payload = 0;
	Node* myNext = nullptr;
};
using MPQ = mg::box::MultiProducerQueueIntrusive<Node>;

struct MP
{
	MPQ q;
	mg::box::Signal sig;
	Node nodes[3][3];
	int script[3];
	bool useSignal = false;
	int nprod = 0;
};
MP* gMP;

// Number of nodes pushed by each script.
const int theScriptLen[] = {1, 2, 2, 2, 3};

void mpProducer(void* a)
{
	int id = (int)(long)a;
	MP* m = gMP;
	Node* n = m->nodes[id];
	for (int i = 0; i < 3; ++i)
		n[i].payload = 10 * id + i + 1;
	auto push = [&](bool first) { if (first && m->useSignal) m->sig.Send(); };
	switch (m->script[id])
	{
	case 0:
		push(m->q.Push(&n[0]));
		break;
	case 1:
		push(m->q.Push(&n[0]));
		push(m->q.Push(&n[1]));
		break;
	case 2:
		n[0].myNext = &n[1];
		n[1].myNext = nullptr;
		push(m->q.PushMany(&n[0]));
		break;
	case 3:
		// Reversed: the newest first.
		n[1].myNext = &n[0];
		n[0].myNext = nullptr;
		if (id == 0)
			push(m->q.PushManyFastReversed(&n[1]));
		else
			push(m->q.PushManyFastReversed(&n[1], &n[0]));
		break;
	case 4:
		n[0].myNext = &n[1];
		n[1].myNext = &n[2];
		n[2].myNext = nullptr;
		push(m->q.PushMany(&n[0]));
		break;
	}
}

// Verifies that order of each producer is kept and the bulk pushes stay contiguous.
struct MPReader
{
	int next[3] = {0, 0, 0};
	int total = 0;
	int lastProd = -1;
	void eat(Node* head, Node* tail, bool checkTail)
	{
		Node* last = nullptr;
		lastProd = -1;
		int cnt = 0;
		for (Node* n = head; n != nullptr; n = n->myNext)
		{
			MC_CHECKF(++cnt <= 9, "the popped list is cyclic");
			MC_CHECKF(n->seq == next[n->prod], "item %d of producer %d is popped when item %d was expected", n->seq, n->prod, next[n->prod]);
			MC_CHECKF(n->payload == 10 * n->prod + n->seq + 1, "item content is not visible to the consumer");
			int s = gMP->script[n->prod];
			if (s >= 2 && n->seq > 0)
				MC_CHECKF(lastProd == n->prod, "a bulk push is torn apart");
			++next[n->prod];
			lastProd = n->prod;
			++total;
			last = n;
		}
		if (checkTail)
			MC_CHECKF(tail == last, "the returned tail is wrong");
	}
	void eatReversed(Node* head)
	{
		Node* arr[9];
		int n = 0;
		for (; head != nullptr; head = head->myNext)
		{
			MC_CHECKF(n < 9, "the popped list is cyclic");
			arr[n++] = head;
		}
		for (int i = 0; i < n; ++i)
			arr[i]->myNext = i == n - 1 ? nullptr : arr[i + 1];
		// Oldest first.
		Node* prev = nullptr;
		for (int i = 0; i < n; ++i)
		{
			arr[i]->myNext = prev;
			prev = arr[i];
		}
		eat(prev, nullptr, false);
	}
};

void mpRun(bool useSignal)
{
	gMP = new MP();
	MP* m = gMP;
	m->useSignal = useSignal;
	m->nprod = (int)mc_param("prods", 2);
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j)
		{
			m->nodes[i][j].prod = i;
			m->nodes[i][j].seq = j;
		}
	int total = 0;
	for (int i = 0; i < m->nprod; ++i)
	{
		m->script[i] = mc_choose(5);
		// Symmetry: scripts 0..2 of equal threads.
		if (i > 0 && m->script[i] < m->script[i - 1] && m->script[i] != 3 && m->script[i - 1] != 3)
			mc_discard();
		total += theScriptLen[m->script[i]];
	}
	int how = mc_choose(3);
	int t[3];
	for (int i = 0; i < m->nprod; ++i)
		t[i] = mc_spawn(mpProducer, (void*)(long)i, "producer");
	MPReader r;
	int rounds = 0;
	while (r.total < total)
	{
		if (useSignal)
			m->sig.ReceiveBlocking();
		else if (rounds == 2)
		{
			for (int i = 0; i < m->nprod; ++i)
				mc_join(t[i]);
		}
		MC_CHECKF(rounds++ < 12, "items are lost");
		Node* tail = nullptr;
		if (how == 0)
		{
			Node* h = m->q.PopAll(tail);
			r.eat(h, tail, true);
		}
		else if (how == 1)
			r.eat(m->q.PopAll(), nullptr, false);
		else
			r.eatReversed(m->q.PopAllFastReversed());
	}
	if (useSignal || rounds <= 2)
		for (int i = 0; i < m->nprod; ++i)
			mc_join(t[i]);
	MC_CHECKF(m->q.IsEmpty() && m->q.PopAll() == nullptr, "extra items in the queue");
	mc_outcome("rounds=%d", rounds);
	delete m;
}

}

// Producers wake the consumer up only when told that the queue was empty before the push.
MC_SCENARIO(mpq_signaled) { mpRun(true); }
// Free polling by the consumer.
MC_SCENARIO(mpq_polled) { mpRun(false); }

// All sequences of operations by one thread against a reference list.
MC_SCENARIO(mpq_sequences)
{
	int depth = (int)mc_param("depth", 6);
	MPQ q;
	Node nodes[32];
	int ref[32];
	int nref = 0, next = 0;
	for (int step = 0; step < depth; ++step)
	{
		int op = mc_choose(9);
		bool wasEmpty = nref == 0;
		MC_CHECK(q.IsEmpty() == wasEmpty);
		auto chain = [&](int n, bool reversed) -> Node* {
			for (int i = 0; i < n; ++i)
			{
				nodes[next + i].seq = next + i;
				nodes[next + i].myNext = nullptr;
			}
			for (int i = 0; i + 1 < n; ++i)
			{
				if (!reversed)
					nodes[next + i].myNext = &nodes[next + i + 1];
				else
					nodes[next + i + 1].myNext = &nodes[next + i];
			}
			Node* r = n == 0 ? nullptr : reversed ? &nodes[next + n - 1] : &nodes[next];
			for (int i = 0; i < n; ++i)
				ref[nref++] = next++;
			return r;
		};
		bool ret, want = wasEmpty;
		if (op == 0)
		{
			Node* n = chain(1, false);
			// Garbage from a previous usage.
			n->myNext = &nodes[31];
			ret = q.Push(n);
		}
		else if (op <= 4)
			ret = q.PushMany(chain(op - 1, false));
		else if (op == 5)
		{
			int len = mc_choose(3);
			ret = q.PushManyFastReversed(chain(len, true));
		}
		else if (op == 6)
		{
			Node* old = &nodes[next];
			Node* n = chain(2, true);
			ret = q.PushManyFastReversed(n, old);
		}
		else
		{
			int i = 0;
			if (op == 7)
			{
				Node* tail;
				Node* n = q.PopAll(tail);
				MC_CHECK((n == nullptr) == (nref == 0));
				if (nref > 0)
					MC_CHECKF(tail == &nodes[ref[nref - 1]], "wrong tail");
				else
					MC_CHECKF(tail == nullptr, "wrong tail of an empty queue");
				for (; n != nullptr; n = n->myNext)
				{
					MC_CHECK(i < nref);
					MC_CHECKF(n->seq == ref[i], "wrong order");
					++i;
				}
			}
			else
			{
				for (Node* n = q.PopAllFastReversed(); n != nullptr; n = n->myNext)
				{
					MC_CHECK(i < nref);
					MC_CHECKF(n->seq == ref[nref - 1 - i], "wrong reversed order");
					++i;
				}
			}
			MC_CHECKF(i == nref, "%d items lost", nref - i);
			nref = 0;
			continue;
		}
		MC_CHECKF(ret == want, "push reported 'was empty' = %d wrongly", ret);
	}
	mc_outcome("left=%d", nref);
}

//////////////////////////////// multi-consumer queue ////////////////////////////////

namespace {

struct Item { int id = 0; int payload = 0; };
using MCQ = mg::box::MultiConsumerQueue<Item>;
using MCC = mg::box::MultiConsumerQueueConsumer<Item>;

struct MC
{
	MC(uint32_t sz) : q(sz) {}
	MCQ q;
	mg::box::Signal sig;
	Item items[8];
	int script = 0;
	int count = 0;
	int ncons = 0;
	int pops[3];
	int reattach[3];
	int reserve = 0;
};
MC* gMC;

ORACLE int gVisible;     // pushes which surely made the item visible
ORACLE int gPopsDone;
ORACLE int gInProgress;
ORACLE int gTaken[8];

Item* mcqPop(MCC& c, int& last, bool strict)
{
	int vis = gVisible;
	++gInProgress;
	Item* it = c.Pop();
	--gInProgress;
	if (it == nullptr)
	{
		if (strict)
			MC_CHECKF(vis <= gPopsDone + gInProgress, "pop returned nothing while %d pushed items are available", vis - gPopsDone - gInProgress);
		return nullptr;
	}
	MC_CHECKF(it->payload == it->id + 100, "item content is not visible to the consumer");
	MC_CHECKF(!gTaken[it->id], "item %d is popped twice", it->id);
	gTaken[it->id] = 1;
	++gPopsDone;
	int skipped = 0;
	for (int i = 0; i < it->id; ++i)
		skipped += !gTaken[i];
	MC_CHECKF(skipped <= gInProgress, "item %d is popped out of order", it->id);
	MC_CHECKF(it->id > last, "a consumer sees items in a wrong order");
	last = it->id;
	return it;
}

void mcqConsumer(void* a)
{
	int id = (int)(long)a;
	MC* m = gMC;
	MCC c;
	c.Attach(&m->q);
	int last = -1;
	for (int i = 0; i < m->pops[id]; ++i)
	{
		if (i == m->reattach[id])
		{
			c.Detach();
			c.Attach(&m->q);
		}
		mcqPop(c, last, true);
	}
	if (m->reattach[id] != 9)
		c.Detach();
}

// Scripts of the producer: P - push, p - pending, f - flush.
const char* theScripts[] = {"PPP", "ppf", "pPp", "ppPf", "pppf", "PpfP", "PPPP", "ppppf", "PppP"};

void mcqProduce(MC* m, const char* s)
{
	int pending = 0;
	for (; *s; ++s)
	{
		if (*s == 'f')
		{
			m->q.FlushPending();
			gVisible = m->count;
			pending = 0;
			continue;
		}
		Item* it = &m->items[m->count];
		it->id = m->count;
		it->payload = m->count + 100;
		++m->count;
		if (*s == 'P')
		{
			m->q.Push(it);
			gVisible = m->count;
		}
		else
			m->q.PushPending(it);
	}
	m->q.FlushPending();
	gVisible = m->count;
}

}

// One producer (the main thread), two consumers, tiny sub-queues.
MC_SCENARIO(mcq_concurrent)
{
	int sz = 1 + mc_choose((int)mc_param("maxsize", 2));
	int nscripts = (int)mc_param("scripts", 6);
	gVisible = gPopsDone = gInProgress = 0;
	memset(gTaken, 0, sizeof(gTaken));
	gMC = new MC(sz);
	MC* m = gMC;
	const char* s = theScripts[mc_choose(nscripts)];
	m->ncons = (int)mc_param("cons", 2);
	int pops = (int)mc_param("pops", 2);
	for (int i = 0; i < m->ncons; ++i)
	{
		m->pops[i] = pops;
		m->reattach[i] = -1;
	}
	m->reattach[0] = mc_choose(2) ? 1 : -1;
	int t[3];
	for (int i = 0; i < m->ncons; ++i)
		t[i] = mc_spawn(mcqConsumer, (void*)(long)i, "consumer");
	mcqProduce(m, s);
	for (int i = 0; i < m->ncons; ++i)
		mc_join(t[i]);
	MC_CHECKF(m->q.Count() == (uint32_t)(m->count - gPopsDone), "the queue size is %u when %d items are left", m->q.Count(), m->count - gPopsDone);
	MC_CHECK(m->q.ConsumerCount() == 0);
	mc_outcome("sz=%d script=%s popped=%d", sz, s, gPopsDone);
	MCC c(&m->q);
	int last = -1;
	while (mcqPop(c, last, true) != nullptr)
		;
	MC_CHECKF(gPopsDone == m->count, "%d items are lost", m->count - gPopsDone);
	MC_CHECK(m->q.Count() == 0);
	c.Detach();
	delete m;
}

// The producer wakes the consumer up only when told that the queue became not empty.
namespace {
void mcqSigConsumer(void*)
{
	MC* m = gMC;
	MCC c(&m->q);
	int last = -1;
	while (gPopsDone < m->pops[0])
	{
		if (mcqPop(c, last, false) != nullptr)
			continue;
		// An item being pushed might be counted already, but not available yet.
		if (m->q.Count() == 0)
			m->sig.ReceiveBlocking();
		else
			mg::box::Sleep(0);
	}
}
}
MC_SCENARIO(mcq_signaled)
{
	int sz = 1 + mc_choose(3);
	gVisible = gPopsDone = gInProgress = 0;
	memset(gTaken, 0, sizeof(gTaken));
	gMC = new MC(sz);
	MC* m = gMC;
	const char* s = theScripts[mc_choose(9)];
	int total = 0;
	for (const char* p = s; *p; ++p)
		total += *p != 'f';
	m->pops[0] = total;
	int t = mc_spawn(mcqSigConsumer, nullptr, "consumer");
	for (;; ++s)
	{
		bool first;
		if (*s == 'f' || *s == 0)
			first = m->q.FlushPending();
		else
		{
			Item* it = &m->items[m->count];
			it->id = m->count;
			it->payload = m->count + 100;
			++m->count;
			first = *s == 'P' ? m->q.Push(it) : m->q.PushPending(it);
		}
		if (first)
			m->sig.Send();
		if (*s == 0)
			break;
	}
	mc_join(t);
	MC_CHECK(m->q.Count() == 0);
	delete m;
}

// Two producer roles handing the queue over (externally synchronized), consumers polling from
// non-initial states: a recycled sub-queue list with several consumers in different places.
MC_SCENARIO(mcq_warm)
{
	int sz = 1 + mc_choose(2);
	gVisible = gPopsDone = gInProgress = 0;
	memset(gTaken, 0, sizeof(gTaken));
	gMC = new MC(sz);
	MC* m = gMC;
	m->q.Reserve(4);
	{
		MCC c(&m->q);
		int last = -1;
		mcqProduce(m, "PPP");
		int k = 1 + mc_choose(3);
		for (int i = 0; i < k; ++i)
			mcqPop(c, last, true);
	}
	m->pops[0] = m->pops[1] = 2;
	m->reattach[0] = m->reattach[1] = -1;
	int t0 = mc_spawn(mcqConsumer, (void*)0, "consumer");
	int t1 = mc_spawn(mcqConsumer, (void*)1, "consumer");
	mcqProduce(m, mc_choose(2) ? "PP" : "pp");
	mc_join(t0);
	mc_join(t1);
	MCC c(&m->q);
	int last = -1;
	while (mcqPop(c, last, true) != nullptr)
		;
	MC_CHECKF(gPopsDone == m->count, "%d items are lost", m->count - gPopsDone);
	MC_CHECK(m->q.Count() == 0);
	// Recycling: sub-queues are reused instead of being added endlessly.
	uint32_t subs = m->q.SubQueueCount();
	MC_CHECKF(subs <= 5u + 1, "too many sub-queues: %u", subs);
	mc_outcome("subs=%u", subs);
	c.Detach();
	delete m;
}

// All operation sequences of one thread against a reference list.
MC_SCENARIO(mcq_sequences)
{
	int depth = (int)mc_param("depth", 6);
	int sz = 1 + mc_choose(3);
	MCQ q(sz);
	Item items[40];
	MCC* c[2] = {nullptr, nullptr};
	int next = 0, head = 0, visible = 0; // items [head, visible) can be popped
	int maxLive = 0;
	bool reserved = false;
	uint32_t rsv = 0;
	for (int step = 0; step < depth; ++step)
	{
		int op = mc_choose(8);
		if (op == 0 || op == 1)
		{
			Item* it = &items[next];
			it->id = next++;
			bool was = visible > head;
			bool r;
			if (op == 0)
			{
				r = q.Push(it);
				visible = next;
				MC_CHECKF(r == !was, "push reported 'became not empty' = %d wrongly", r);
			}
			else
			{
				r = q.PushPending(it);
				// The push is allowed to flush the previous pending items.
				if (q.Count() != (uint32_t)(visible - head))
				{
					MC_CHECKF(q.Count() == (uint32_t)(next - 1 - head), "pending push made a wrong number of items visible");
					MC_CHECKF(r == !was, "pending push reported 'became not empty' = %d wrongly", r);
					visible = next - 1;
				}
				else
					MC_CHECKF(!r, "pending push reported a flush, but nothing is flushed");
			}
		}
		else if (op == 2)
		{
			bool was = visible > head;
			bool r = q.FlushPending();
			MC_CHECKF(r == (!was && next > visible), "flush reported 'became not empty' = %d wrongly", r);
			visible = next;
		}
		else if (op == 3 || op == 4)
		{
			int k = op - 3;
			if (c[k] == nullptr)
				c[k] = new MCC(&q);
			Item* it = c[k]->Pop();
			if (head == visible)
				MC_CHECKF(it == nullptr, "popped an item which is not visible yet");
			else
			{
				MC_CHECKF(it != nullptr, "an available item is not found");
				MC_CHECKF(it->id == head, "popped item %d instead of %d", it->id, head);
				++head;
			}
		}
		else if (op == 5 || op == 6)
		{
			int k = op - 5;
			if (c[k] != nullptr)
			{
				delete c[k];
				c[k] = nullptr;
			}
			else
				c[k] = new MCC(&q);
		}
		else
		{
			q.Reserve(sz * 2);
			reserved = true;
			MC_CHECKF(q.SubQueueCount() >= 2, "reserve has not reserved");
			rsv = 2;
		}
		if (next - head > maxLive)
			maxLive = next - head;
		MC_CHECKF(q.Count() == (uint32_t)(visible - head), "the queue size is %u instead of %d", q.Count(), visible - head);
		MC_CHECKF(q.ConsumerCount() == (uint32_t)((c[0] != nullptr) + (c[1] != nullptr)), "wrong consumer count");
	}
	mc_outcome("sz=%d left=%d", sz, next - head);
	// Drain everything.
	q.FlushPending();
	visible = next;
	MCC last(&q);
	while (head < visible)
	{
		Item* it = last.Pop();
		MC_CHECKF(it != nullptr, "an available item is not found");
		MC_CHECKF(it->id == head, "popped item %d instead of %d", it->id, head);
		++head;
	}
	MC_CHECK(last.Pop() == nullptr);
	MC_CHECK(q.Count() == 0);
	for (int i = 0; i < 2; ++i)
	{
		if (c[i] != nullptr)
		{
			MC_CHECK(c[i]->Pop() == nullptr);
			delete c[i];
		}
	}
	// Steady usage does not need more memory.
	uint32_t subs = q.SubQueueCount();
	for (int i = 0; i < 16; ++i)
	{
		q.Push(&items[0]);
		MC_CHECK(last.Pop() == &items[0]);
		if (i == 7)
			subs = q.SubQueueCount();
	}
	MC_CHECKF(q.SubQueueCount() == subs, "sub-queues are not reused");
	(void)reserved; (void)rsv;
}
