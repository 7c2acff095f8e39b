// Reference counting, shared pointers, thread-local object pools.
#include "mc.h"
#include "mg/box/SharedPtr.h"
#include "mg/box/Thread.h"
#include "mg/box/ThreadLocalPool.h"
#include <new>
#include <string.h>

#define ORACLE __attribute__((section("mcoracle")))

namespace {

ORACLE int gAlive[8];

struct Obj
{
	SHARED_PTR_API(Obj, myRef)
public:
	Obj(int id) : myId(id) { gAlive[id] = 1; }
	int refs() const { return (int)myRef.Get(); }
	mg::box::RefCount myRef;
	int myId;
	int myData = 0;
	Ptr myNext;
protected:
	virtual ~Obj() { MC_CHECKF(gAlive[myId] == 1, "deleted twice"); gAlive[myId] = 0; myData = -1; }
};

struct Child : public Obj
{
	SHARED_PTR_RENEW_API(Child)
	Child(int id) : Obj(id) {}
	int myExtra = 0;
protected:
	~Child() override { myExtra = -1; }
};

// References by the model: raw[k] - object id of pointer k, next[i] - id of the next of object i.
struct PModel
{
	int ptr[3];
	int next[4];
	int refs[4];
	bool alive[4];
	int extra[4]; // raw references
	void recount()
	{
		// Objects die when nothing refers to them, cascading. Cycles stay alive by refs.
		for (;;)
		{
			for (int i = 0; i < 4; ++i)
				refs[i] = extra[i];
			for (int k = 0; k < 3; ++k)
				if (ptr[k] >= 0) ++refs[ptr[k]];
			for (int i = 0; i < 4; ++i)
				if (alive[i] && next[i] >= 0) ++refs[next[i]];
			bool changed = false;
			for (int i = 0; i < 4; ++i)
				if (alive[i] && refs[i] == 0) { alive[i] = false; changed = true; }
			if (!changed)
				break;
		}
	}
};

}

// All the comparison operators of two pointers, in both orders.
namespace {
template <typename A, typename B>
void checkCompare(const A& a, const B& b, bool equal)
{
	MC_CHECKF((a == b) == equal && (b == a) == equal && (a != b) == !equal && (b != a) == !equal, "pointers are compared wrong");
	auto* rb = b.GetPointer();
	MC_CHECKF((a == rb) == equal && (rb == a) == equal && (a != rb) == !equal && (rb != a) == !equal, "a pointer is compared wrong with a raw one");
	bool isNull = a.GetPointer() == nullptr;
	MC_CHECKF((a == nullptr) == isNull && (nullptr == a) == isNull && (a != nullptr) == !isNull && (nullptr != a) == !isNull && a.IsSet() == !isNull, "a pointer is compared wrong with null");
}
}

// All operation sequences over two pointers of the base type and one of the child type.
MC_SCENARIO(shared_ptr_sequences)
{
	int depth = (int)mc_param("depth", 4);
	memset(gAlive, 0, sizeof(gAlive));
	Obj::Ptr* p[2] = {new Obj::Ptr(), new Obj::Ptr()};
	Child::Ptr* c = new Child::Ptr();
	Child* objs[4] = {};
	PModel m;
	for (int k = 0; k < 3; ++k) m.ptr[k] = -1;
	for (int i = 0; i < 4; ++i) { m.next[i] = -1; m.alive[i] = false; m.extra[i] = 0; }
	int created = 0;
	for (int s = 0; s < depth; ++s)
	{
		int op = mc_choose(14);
		int k = op <= 9 ? mc_choose(2) : 0;
		int o = m.ptr[k];
		switch (op)
		{
		case 0: // new
		{
			if (created == 3) mc_discard();
			objs[created] = new Child(created);
			*p[k] = Obj::Ptr::Wrap(objs[created]);
			m.alive[created] = true;
			m.ptr[k] = created++;
			break;
		}
		case 1: { int j = mc_choose(2); *p[k] = *p[j]; m.ptr[k] = m.ptr[j]; break; }
		case 2: // move assign between different pointers
			*p[k] = std::move(*p[1 - k]);
			m.ptr[k] = m.ptr[1 - k];
			m.ptr[1 - k] = -1;
			break;
		case 3: *p[k] = *c; m.ptr[k] = m.ptr[2]; break;
		case 4: *p[k] = std::move(*c); m.ptr[k] = m.ptr[2]; m.ptr[2] = -1; break;
		case 5: p[k]->Clear(); m.ptr[k] = -1; break;
		case 6: // raw set
			if (created == 0) { p[k]->Set(nullptr); m.ptr[k] = -1; break; }
			{
				int j = mc_choose(created);
				if (!m.alive[j]) mc_discard();
				p[k]->Set(objs[j]);
				m.ptr[k] = j;
			}
			break;
		case 7: // copy/move constructors, destruction
		{
			int how = mc_choose(3);
			Obj::Ptr* n = how == 0 ? new Obj::Ptr(*p[k]) : how == 1 ? new Obj::Ptr(std::move(*p[k])) : new Obj::Ptr(p[k]->GetPointer());
			MC_CHECK((*n == nullptr) == (o < 0));
			MC_CHECK(how != 1 || !p[k]->IsSet());
			delete p[k];
			p[k] = n;
			break;
		}
		case 8: // link to the next object: p[k]->next = p[1 - k]
			if (o < 0) mc_discard();
			if (m.ptr[1 - k] == o || (m.ptr[1 - k] >= 0 && m.next[m.ptr[1 - k]] >= 0)) mc_discard();
			(*p[k])->myNext = *p[1 - k];
			m.next[o] = m.ptr[1 - k];
			break;
		case 9: // list step
			if (o < 0) mc_discard();
			if (mc_choose(2))
			{
				*p[k] = std::move((*p[k])->myNext);
				m.ptr[k] = m.next[o];
				m.next[o] = -1;
			}
			else
			{
				*p[k] = (*p[k])->myNext;
				m.ptr[k] = m.next[o];
			}
			break;
		case 10: // child pointer
		{
			if (created == 3) mc_discard();
			*c = Child::NewShared(created);
			objs[created] = c->GetPointer();
			m.alive[created] = true;
			m.ptr[2] = created++;
			break;
		}
		case 11: c->Clear(); m.ptr[2] = -1; break;
		case 12: // unwrap and wrap again into another pointer
		{
			Obj* raw = p[0]->Unwrap();
			MC_CHECK(!p[0]->IsSet());
			*p[1] = Obj::Ptr::Wrap(raw);
			m.ptr[1] = m.ptr[0];
			m.ptr[0] = -1;
			break;
		}
		case 13: // constructors from the child
		{
			Obj::Ptr* n = mc_choose(2) ? new Obj::Ptr(*c) : new Obj::Ptr(std::move(*c));
			MC_CHECK(n->IsSet() == (m.ptr[2] >= 0));
			if (!c->IsSet())
				m.ptr[2] = -1;
			n->Clear();
			delete n;
			break;
		}
		}
		m.recount();
		for (int k2 = 0; k2 < 3; ++k2)
		{
			Obj* q = k2 < 2 ? p[k2]->GetPointer() : c->GetPointer();
			MC_CHECKF(q == (m.ptr[k2] < 0 ? nullptr : (Obj*)objs[m.ptr[k2]]), "a pointer refers to a wrong object");
		}
		MC_CHECK((*p[0] == *p[1]) == (m.ptr[0] == m.ptr[1]));
		MC_CHECK((*p[0] != *p[1]) == (m.ptr[0] != m.ptr[1]));
		MC_CHECK((*p[0] == *c) == (m.ptr[0] == m.ptr[2]));
		checkCompare(*p[0], *c, m.ptr[0] == m.ptr[2]);
		checkCompare(*c, *p[1], m.ptr[1] == m.ptr[2]);
		checkCompare(*p[0], *p[1], m.ptr[0] == m.ptr[1]);
		for (int i = 0; i < created; ++i)
		{
			MC_CHECKF(gAlive[i] == (int)m.alive[i], m.alive[i] ? "a referenced object is deleted" : "an unreferenced object is leaked");
			if (m.alive[i])
				MC_CHECKF(objs[i]->refs() == m.refs[i], "object has %d references instead of %d", objs[i]->refs(), m.refs[i]);
		}
	}
	mc_outcome("created=%d", created);
	p[0]->Clear();
	p[1]->Clear();
	c->Clear();
	for (int i = 0; i < created; ++i)
		MC_CHECKF(gAlive[i] == 0, "an unreferenced object is leaked");
	delete p[0];
	delete p[1];
	delete c;
}

// Concurrent users of one object: it is deleted exactly once, after all the users are done with it.
namespace {
struct RefArg { Obj::Ptr ptr; int mode; };
void refUser(void* a)
{
	RefArg* r = (RefArg*)a;
	if (r->mode == 0)
	{
		// Only read.
		(void)r->ptr->myId;
		r->ptr.Clear();
	}
	else if (r->mode == 1)
	{
		Obj::Ptr copy = r->ptr;
		r->ptr.Clear();
		(void)copy->myId;
		copy.Clear();
	}
	else
	{
		Obj::Ptr moved = std::move(r->ptr);
		MC_CHECK(moved->myId == 0);
		Obj::Ptr copy2(moved.GetPointer());
		moved = std::move(copy2);
		moved = nullptr == moved ? Obj::Ptr() : moved;
		moved.Clear();
	}
}
}
MC_SCENARIO(shared_ptr_threads)
{
	int n = (int)mc_param("users", 2);
	RefArg* a = new RefArg[3];
	{
		Obj::Ptr o = Obj::NewShared(0);
		for (int i = 0; i < n; ++i)
		{
			a[i].ptr = o;
			a[i].mode = mc_choose(3);
			if (i > 0 && a[i].mode < a[i - 1].mode)
				mc_discard();
		}
	}
	int t[3];
	for (int i = 0; i < n; ++i)
		t[i] = mc_spawn(refUser, &a[i], "user");
	for (int i = 0; i < n; ++i)
		mc_join(t[i]);
	MC_CHECKF(gAlive[0] == 0, "an unreferenced object is leaked");
	delete[] a;
}

///////////////////////////////////// object pools /////////////////////////////////////

namespace {

struct PoolObj : public mg::box::ThreadPooled<PoolObj, 2>
{
	PoolObj(int o) : owner(o), a(o), b(~o) { }
	uint64_t pad[3];
	int owner, a, b;
	bool ok(int o) const { return owner == o && a == o && b == ~o; }
};

struct PoolShared
{
	PoolObj* pass[2][4];
	int script[2];
	int passed[2];
};
PoolShared* gPool;

// Each thread allocates, checks, frees, hands over. Objects must never overlap.
void poolWorker(void* a)
{
	int id = (int)(long)a;
	PoolShared* s = gPool;
	PoolObj* mine[4] = {};
	int n = 0;
	const char* scripts[] = {"aafaff", "aaapff", "apapa", "aaaafffff", "affa"};
	for (const char* c = scripts[s->script[id]]; *c; ++c)
	{
		if (*c == 'a')
		{
			PoolObj* o = new PoolObj(id * 10 + n);
			for (int i = 0; i < n; ++i)
				MC_CHECKF(mine[i] != o, "the same object is allocated twice");
			mine[n++] = o;
		}
		else if (n > 0)
		{
			PoolObj* o = mine[--n];
			MC_CHECKF(o->ok(id * 10 + n), "an allocated object is modified by somebody else");
			mine[n] = nullptr;
			if (*c == 'p')
			{
				o->owner = o->a = 100;
				o->b = ~100;
				s->pass[id][s->passed[id]++] = o;
			}
			else
				delete o;
		}
		for (int i = 0; i < n; ++i)
			MC_CHECKF(mine[i]->ok(id * 10 + i), "an allocated object is modified by somebody else");
	}
	while (n > 0)
	{
		PoolObj* o = mine[--n];
		MC_CHECKF(o->ok(id * 10 + n), "an allocated object is modified by somebody else");
		delete o;
	}
}

}

// Two threads with their own pools, exits return the leftovers to the global pool, the main thread
// frees what was handed over and then the memory is reused.
MC_SCENARIO(pool_threads)
{
	gPool = new PoolShared();
	memset((void*)gPool, 0, sizeof(*gPool));
	int nscripts = (int)mc_param("scripts", 5);
	gPool->script[0] = mc_choose(nscripts);
	gPool->script[1] = mc_choose(nscripts);
	if (gPool->script[1] < gPool->script[0])
		mc_discard();
	PoolObj* pre[3];
	int npre = mc_choose(3);
	for (int i = 0; i < npre; ++i)
		pre[i] = new PoolObj(200 + i);
	int t0 = mc_spawn(poolWorker, (void*)0, "worker");
	int t1 = mc_spawn(poolWorker, (void*)1, "worker");
	mc_join(t0);
	mc_join(t1);
	for (int i = 0; i < 2; ++i)
		for (int j = 0; j < gPool->passed[i]; ++j)
		{
			MC_CHECKF(gPool->pass[i][j]->ok(100), "an allocated object is modified by somebody else");
			delete gPool->pass[i][j];
		}
	for (int i = 0; i < npre; ++i)
	{
		MC_CHECKF(pre[i]->ok(200 + i), "an allocated object is modified by somebody else");
		delete pre[i];
	}
	// Everything is free now: allocating the same amount again needs few new blocks, and all are unique.
	uint64_t blocks = mc_live_blocks();
	PoolObj* all[8];
	int cnt = npre + gPool->passed[0] + gPool->passed[1];
	for (int i = 0; i < cnt; ++i)
	{
		all[i] = new PoolObj(300 + i);
		for (int j = 0; j < i; ++j)
			MC_CHECKF(all[i] != all[j], "the same object is allocated twice");
	}
	MC_CHECKF(mc_live_blocks() == blocks, "freed objects are not reused");
	for (int i = 0; i < cnt; ++i)
	{
		MC_CHECKF(all[i]->ok(300 + i), "an allocated object is modified by somebody else");
		delete all[i];
	}
	mc_outcome("%d %d %d", gPool->script[0], gPool->script[1], npre);
	delete gPool;
}

// All sequences of allocations and frees (any live object) by one thread, with excursions of another
// thread: objects are unique, intact, and the memory does not grow beyond the peak.
namespace {
struct SeqArg { PoolObj** slots; int alloc; int freeN; };
void poolExcursion(void* a)
{
	SeqArg* s = (SeqArg*)a;
	// Frees objects of the other thread and allocates some for it.
	for (int i = 0; i < 6; ++i)
	{
		if (s->freeN > 0 && s->slots[i] != nullptr)
		{
			MC_CHECKF(s->slots[i]->ok(i), "an allocated object is modified by somebody else");
			delete s->slots[i];
			s->slots[i] = nullptr;
			--s->freeN;
		}
	}
	for (int i = 0; i < 6; ++i)
	{
		if (s->alloc > 0 && s->slots[i] == nullptr)
		{
			s->slots[i] = new PoolObj(i);
			--s->alloc;
		}
	}
}
}
MC_SCENARIO(pool_sequences)
{
	int depth = (int)mc_param("depth", 6);
	PoolObj* slots[6] = {};
	int live = 0, peak = 0;
	uint64_t base = mc_live_blocks();
	for (int s = 0; s < depth; ++s)
	{
		int op = mc_choose(9);
		if (op == 0)
		{
			int i = 0;
			while (i < 6 && slots[i] != nullptr)
				++i;
			if (i == 6) mc_discard();
			slots[i] = new PoolObj(i);
			++live;
		}
		else if (op <= 6)
		{
			int i = op - 1;
			if (slots[i] == nullptr) mc_discard();
			delete slots[i];
			slots[i] = nullptr;
			--live;
		}
		else
		{
			SeqArg a;
			a.slots = slots;
			a.alloc = op == 7 ? 3 : 0;
			a.freeN = op == 7 ? 0 : 3;
			int t = mc_spawn(poolExcursion, &a, "other");
			mc_join(t);
			live = 0;
			for (PoolObj* o : slots)
				live += o != nullptr;
		}
		if (live > peak)
			peak = live;
		for (int i = 0; i < 6; ++i)
		{
			MC_CHECKF(slots[i] == nullptr || slots[i]->ok(i), "an allocated object is modified by somebody else");
			for (int j = 0; j < i; ++j)
				MC_CHECKF(slots[i] == nullptr || slots[i] != slots[j], "the same object is allocated twice");
		}
	}
	uint64_t grown = mc_live_blocks() - base;
	mc_outcome("live=%d blocks=%d", live, (int)grown);
	// Each block has 3 units. Each of at most 2 local pools might cache up to one block.
	MC_CHECKF(grown <= (uint64_t)((peak + 2) / 3 + 4), "pool memory grows: %d blocks for the peak of %d objects", (int)grown, peak);
	for (PoolObj* o : slots)
		if (o != nullptr)
			delete o;
}

// A balance of producers and consumers: what one thread freed (all after it ended, all but the small
// cache while it runs) is reused by others before new memory is taken.
namespace {
struct BalanceArg
{
	PoolObj** objs;
	int free;
	int alloc;
	uint64_t grown;
	uint64_t limit;
	bool mustExit;
};
ORACLE int gBalanceFreed;
ORACLE int gBalanceDone;
void balanceFree(void* p)
{
	BalanceArg* a = (BalanceArg*)p;
	for (int i = 0; i < a->free; ++i)
		delete a->objs[i];
	gBalanceFreed = 1;
	if (!a->mustExit)
		mc_wait_until([](void*) { return gBalanceDone != 0; }, nullptr);
}
void balanceAlloc(void* p)
{
	BalanceArg* a = (BalanceArg*)p;
	mc_wait_until([](void*) { return gBalanceFreed != 0; }, nullptr);
	uint64_t blocks = mc_live_blocks();
	PoolObj* all[10];
	for (int i = 0; i < a->alloc; ++i)
	{
		all[i] = new PoolObj(i);
		for (int j = 0; j < i; ++j)
			MC_CHECKF(all[i] != all[j], "the same object is allocated twice");
	}
	a->grown = mc_live_blocks() - blocks;
	for (int i = 0; i < a->alloc; ++i)
		MC_CHECKF(all[i]->ok(i), "an allocated object is modified by somebody else");
	for (int i = 0; i < a->alloc; ++i)
		delete all[i];
	gBalanceDone = 1;
}
}
MC_SCENARIO(pool_balance)
{
	PoolObj* objs[9];
	int n = mc_choose(10);
	for (int i = 0; i < n; ++i)
		objs[i] = new PoolObj(400 + i);
	BalanceArg a = {};
	a.objs = objs;
	a.free = mc_choose(n + 1);
	a.mustExit = mc_choose(2) != 0;
	// A running thread might keep a batch with its container.
	a.alloc = a.mustExit ? a.free : (a.free > 3 ? a.free - 3 : 0);
	gBalanceFreed = 0;
	gBalanceDone = 0;
	int t0 = mc_spawn(balanceFree, &a, "free");
	if (a.mustExit)
		mc_join(t0);
	int t1 = mc_spawn(balanceAlloc, &a, "alloc");
	mc_join(t1);
	if (!a.mustExit)
		mc_join(t0);
	MC_CHECKF(a.grown == 0, "%d freed objects are not reused by another thread", a.alloc);
	for (int i = a.free; i < n; ++i)
	{
		MC_CHECKF(objs[i]->ok(400 + i), "an allocated object is modified by somebody else");
		delete objs[i];
	}
	mc_outcome("%d %d %d", n, a.free, (int)a.mustExit);
}
