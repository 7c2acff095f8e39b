// Intrusive lists and the binary heap: every operation sequence against a reference.
#include "mc.h"
#include "mg/box/BinaryHeap.h"
#include "mg/box/DoublyList.h"
#include "mg/box/ForwardList.h"
#include <string.h>
#include <new>
#include <utility>

namespace {

struct FN { int id; FN* myNext; };
struct DN { int id; DN* myPrev; DN* myNext; };

// A tiny reference list.
struct Ref
{
	int a[8];
	int n = 0;
	void append(int x) { a[n++] = x; }
	void prepend(int x) { insert(0, x); }
	void insert(int pos, int x)
	{
		for (int i = n; i > pos; --i)
			a[i] = a[i - 1];
		a[pos] = x;
		++n;
	}
	int popFirst() { int r = a[0]; remove(0); return r; }
	void remove(int pos)
	{
		for (int i = pos; i + 1 < n; ++i)
			a[i] = a[i + 1];
		--n;
	}
	void reverse()
	{
		for (int i = 0; i < n / 2; ++i)
			std::swap(a[i], a[n - 1 - i]);
	}
};

template<typename L, typename N>
struct Lists
{
	static constexpr int ITEMS = 4;
	N items[ITEMS];
	N garbage;
	bool used[ITEMS] = {};
	L l[2];
	Ref r[2];

	int freeCount() { int c = 0; for (bool u : used) c += !u; return c; }
	// Takes the first free item: the items are interchangeable.
	int take()
	{
		for (int i = 0; i < ITEMS; ++i)
			if (!used[i])
			{
				used[i] = true;
				return i;
			}
		mc_discard();
	}
	void release(Ref& ref)
	{
		for (int i = 0; i < ref.n; ++i)
			used[ref.a[i]] = false;
		ref.n = 0;
	}
};

void poison(FN& n, FN* g) { n.myNext = g; }
void poison(DN& n, DN* g) { n.myNext = g; n.myPrev = g; }
void link2(FN& a, FN& b) { a.myNext = &b; }
void link2(DN& a, DN& b) { a.myNext = &b; b.myPrev = &a; }
void checkBack(const FN*, Ref&) {}
void checkBack(const DN* last, Ref& r)
{
	int i = r.n;
	for (const DN* n = last; n != nullptr; n = n->myPrev)
	{
		MC_CHECKF(--i >= 0, "backward walk is longer than the list");
		MC_CHECKF(n->id == r.a[i], "backward walk is broken");
	}
	MC_CHECKF(i == 0, "backward walk lost %d items", i);
}

template<typename L, typename N>
void verify(Lists<L, N>& s)
{
	for (int k = 0; k < 2; ++k)
	{
		L& l = s.l[k];
		const L& cl = l;
		Ref& r = s.r[k];
		MC_CHECKF(l.IsEmpty() == (r.n == 0), "emptiness is wrong");
		MC_CHECKF((l.GetFirst() == nullptr) == (r.n == 0), "first is wrong");
		MC_CHECKF((l.GetLast() == nullptr) == (r.n == 0), "last is wrong");
		MC_CHECK(cl.GetFirst() == l.GetFirst() && cl.GetLast() == l.GetLast());
		if (r.n > 0)
		{
			MC_CHECKF(l.GetFirst() == &s.items[r.a[0]], "first is wrong");
			MC_CHECKF(l.GetLast() == &s.items[r.a[r.n - 1]], "last is wrong");
		}
		int i = 0;
		for (N* n : l)
		{
			MC_CHECKF(i < r.n, "the list has extra items");
			MC_CHECKF(n == &s.items[r.a[i]], "item %d is wrong", i);
			// Removal of the current element during iteration is allowed.
			N save = *n;
			poison(*n, &s.garbage);
			*n = save;
			++i;
		}
		MC_CHECKF(i == r.n, "the list lost %d items", r.n - i);
		i = 0;
		for (const N* n : cl)
		{
			MC_CHECK(i < r.n);
			MC_CHECK(n->id == r.a[i++]);
		}
		MC_CHECK(i == r.n);
		checkBack(l.GetLast(), r);
	}
}

void extraOps(Lists<mg::box::ForwardList<FN>, FN>& s, int k)
{
	// Insert after any position.
	int pos = mc_choose(s.r[k].n + 1);
	int i = s.take();
	poison(s.items[i], &s.garbage);
	s.l[k].Insert(pos == 0 ? nullptr : &s.items[s.r[k].a[pos - 1]], &s.items[i]);
	s.r[k].insert(pos, i);
}
void extraOps(Lists<mg::box::DoublyList<DN>, DN>& s, int k)
{
	if (s.r[k].n == 0)
		mc_discard();
	int pos = mc_choose(s.r[k].n + 1);
	if (pos == s.r[k].n)
	{
		DN* n = s.l[k].PopLast();
		MC_CHECKF(n->id == s.r[k].a[s.r[k].n - 1], "wrong item is popped from the end");
		s.used[n->id] = false;
		--s.r[k].n;
		return;
	}
	int i = s.r[k].a[pos];
	s.l[k].Remove(&s.items[i]);
	s.used[i] = false;
	s.r[k].remove(pos);
}

template<typename L, typename N>
void run(int depth)
{
	Lists<L, N>* sp = new Lists<L, N>();
	Lists<L, N>& s = *sp;
	s.garbage.id = -1;
	poison(s.garbage, nullptr);
	for (int i = 0; i < s.ITEMS; ++i)
	{
		s.items[i].id = i;
		poison(s.items[i], &s.garbage);
	}
	for (int step = 0; step < depth; ++step)
	{
		int op = mc_choose(15);
		int k = op >= 12 ? 0 : mc_choose(2);
		L& l = s.l[k];
		L& o = s.l[1 - k];
		Ref& r = s.r[k];
		Ref& ro = s.r[1 - k];
		switch (op)
		{
		case 0: { int i = s.take(); poison(s.items[i], &s.garbage); l.Append(&s.items[i]); r.append(i); break; }
		case 1: { int i = s.take(); poison(s.items[i], &s.garbage); l.Prepend(&s.items[i]); r.prepend(i); break; }
		case 2:
			l.Append(std::move(o));
			for (int i = 0; i < ro.n; ++i)
				r.append(ro.a[i]);
			ro.n = 0;
			break;
		case 3:
			l.Prepend(std::move(o));
			for (int i = ro.n - 1; i >= 0; --i)
				r.prepend(ro.a[i]);
			ro.n = 0;
			break;
		case 4:
		case 5:
		{
			int n = mc_choose(3);
			int a = n > 0 ? s.take() : -1;
			int b = n > 1 ? s.take() : a;
			if (n > 0)
			{
				poison(s.items[a], &s.garbage);
				poison(s.items[b], &s.garbage);
			}
			if (n > 1)
				link2(s.items[a], s.items[b]);
			N* first = n > 0 ? &s.items[a] : nullptr;
			N* last = n > 0 ? &s.items[b] : nullptr;
			if (op == 4)
			{
				l.Append(first, last);
				if (n > 0) r.append(a);
				if (n > 1) r.append(b);
			}
			else
			{
				l.Prepend(first, last);
				if (n > 1) r.prepend(b);
				if (n > 0) r.prepend(a);
			}
			break;
		}
		case 6:
			l.Reverse();
			r.reverse();
			break;
		case 7:
		{
			if (r.n == 0)
				mc_discard();
			N* n = l.PopFirst();
			MC_CHECKF(n->id == r.a[0], "wrong item is popped");
			s.used[r.popFirst()] = false;
			break;
		}
		case 8:
		{
			N* last = &s.garbage;
			bool withLast = mc_choose(2);
			N* n = withLast ? l.PopAll(last) : l.PopAll();
			if (withLast)
				MC_CHECKF((last == nullptr) == (r.n == 0) && (r.n == 0 || last->id == r.a[r.n - 1]), "wrong last item of pop-all");
			for (int i = 0; i < r.n; ++i)
			{
				MC_CHECKF(n != nullptr && n->id == r.a[i], "wrong items of pop-all");
				n = n->myNext;
			}
			MC_CHECKF(n == nullptr, "extra items of pop-all");
			s.release(r);
			break;
		}
		case 9:
			extraOps(s, k);
			break;
		case 10:
			// Move-assign discards the old content.
			l = std::move(o);
			s.release(r);
			r = ro;
			ro.n = 0;
			break;
		case 11:
		{
			// Move-construct into a new place, the old one is reused as an empty list.
			L* fresh = new L(std::move(l));
			MC_CHECKF(l.IsEmpty(), "a moved-out list is not empty");
			MC_CHECK(l.GetLast() == nullptr);
			int probe = mc_choose(2);
			if (probe)
			{
				int i = s.take();
				fresh->Append(&s.items[i]);
				r.append(i);
				MC_CHECKF(l.IsEmpty(), "lists share their content after a move");
			}
			// The heap memory of the list is released: nothing can refer to it.
			l = std::move(*fresh);
			delete fresh;
			break;
		}
		case 12:
			s.l[0].Clear();
			s.release(s.r[0]);
			break;
		case 13:
		case 14:
		{
			int n = op == 13 ? 0 : 1 + mc_choose(2);
			int a = n > 0 ? s.take() : -1;
			int b = n > 1 ? s.take() : a;
			if (n > 0)
			{
				poison(s.items[a], &s.garbage);
				poison(s.items[b], &s.garbage);
			}
			if (n > 1)
				link2(s.items[a], s.items[b]);
			L* fresh = new L(n > 0 ? &s.items[a] : nullptr, n > 0 ? &s.items[b] : nullptr);
			s.l[0] = std::move(*fresh);
			delete fresh;
			s.release(s.r[0]);
			if (n > 0) s.r[0].append(a);
			if (n > 1) s.r[0].append(b);
			break;
		}
		}
		verify(s);
	}
	mc_outcome("len=%d,%d", s.r[0].n, s.r[1].n);
	delete sp;
}

}

MC_SCENARIO(forward_list) { run<mg::box::ForwardList<FN>, FN>((int)mc_param("depth", 4)); }
MC_SCENARIO(doubly_list) { run<mg::box::DoublyList<DN>, DN>((int)mc_param("depth", 4)); }

//////////////////////////////////////// heap ////////////////////////////////////////

namespace {

struct HV
{
	int val = 0;
	int32_t myIndex = -1;
	bool operator<=(const HV& o) const { return val <= o.val; }
	bool operator>=(const HV& o) const { return val >= o.val; }
};

template<typename H>
void heapVerify(H& h, HV* v, bool* in, int n, bool isMin)
{
	int cnt = 0;
	for (int i = 0; i < n; ++i)
	{
		if (!in[i])
		{
			MC_CHECKF(v[i].myIndex == -1, "a removed element still has an index");
			continue;
		}
		++cnt;
		MC_CHECKF(v[i].myIndex >= 0, "a stored element has no index");
		for (int j = 0; j < i; ++j)
			MC_CHECKF(!in[j] || v[j].myIndex != v[i].myIndex, "two elements share one index");
		MC_CHECKF(isMin ? h.GetTop()->val <= v[i].val : h.GetTop()->val >= v[i].val, "the top is not the extreme element");
	}
	MC_CHECKF(h.Count() == (uint32_t)cnt, "count is wrong");
}

template<typename H>
void heapRun(bool isMin)
{
	int n = (int)mc_param("n", 6);
	int vals = (int)mc_param("vals", 3);
	int ops = (int)mc_param("ops", 1);
	H h;
	HV v[10];
	bool in[10] = {};
	int cnt = mc_choose(n + 1);
	for (int i = 0; i < cnt; ++i)
	{
		v[i].val = mc_choose(vals);
		h.Push(&v[i]);
		in[i] = true;
	}
	heapVerify(h, v, in, cnt, isMin);
	for (int s = 0; s < ops; ++s)
	{
		int op = mc_choose(5);
		if (op == 0)
		{
			bool was = h.Count() > 0;
			HV* top = was ? h.GetTop() : nullptr;
			MC_CHECK(h.RemoveTop() == was);
			if (was)
				in[top - v] = false;
		}
		else if (op == 1)
		{
			bool was = h.Count() > 0;
			HV* top = was ? h.GetTop() : nullptr;
			HV* out = nullptr;
			MC_CHECK(h.Pop(out) == was);
			MC_CHECKF(out == top, "pop returned not the top");
			if (was)
				in[out - v] = false;
		}
		else if (op == 2)
		{
			if (h.Count() == 0)
				mc_discard();
			int i = h.GetTop() - v;
			v[i].val = mc_choose(vals + 2) - 1;
			h.UpdateTop();
			// The order is guaranteed only when the top got lower in the heap or stayed.
		}
		else
		{
			if (cnt == 0)
				mc_discard();
			int i = mc_choose(cnt);
			if (!in[i])
				mc_discard();
			if (op == 3)
			{
				h.Remove(&v[i]);
				in[i] = false;
			}
			else
			{
				v[i].val = mc_choose(vals + 2) - 1;
				h.Update(&v[i]);
			}
		}
		heapVerify(h, v, in, cnt, isMin);
	}
	// Drain: must be sorted and complete.
	bool first = true;
	int last = 0;
	int left = (int)h.Count();
	mc_outcome("left=%d", left);
	HV* out;
	while (h.Pop(out))
	{
		MC_CHECKF(in[out - v], "popped an element which is not in the heap");
		in[out - v] = false;
		MC_CHECKF(first || (isMin ? out->val >= last : out->val <= last), "the heap is not sorted");
		last = out->val;
		first = false;
		--left;
		heapVerify(h, v, in, cnt, isMin);
	}
	MC_CHECK(left == 0);
	MC_CHECK(!h.RemoveTop());
}

template<typename H>
void heapObjRun(bool isMin)
{
	int n = (int)mc_param("n", 7);
	int vals = (int)mc_param("vals", 3);
	H h;
	int hist[8] = {};
	int cnt = mc_choose(n + 1);
	if (mc_choose(2))
	{
		h.Reserve(5);
		MC_CHECKF(h.GetCapacity() >= 5, "no space is reserved");
	}
	for (int i = 0; i < cnt; ++i)
	{
		HV x;
		x.val = mc_choose(vals);
		++hist[x.val];
		h.Push(x);
	}
	if (cnt > 0 && mc_choose(2))
	{
		--hist[h.GetTop().val];
		h.GetTop().val = mc_choose(vals);
		++hist[h.GetTop().val];
		h.UpdateTop();
	}
	HV x;
	int last = isMin ? -1 : 100;
	while (h.Pop(x))
	{
		MC_CHECKF(isMin ? x.val >= last : x.val <= last, "the heap is not sorted");
		last = x.val;
		MC_CHECKF(--hist[x.val] >= 0, "extra element");
		--cnt;
	}
	MC_CHECK(cnt == 0);
}

}

MC_SCENARIO(heap_min) { heapRun<mg::box::BinaryHeapMinIntrusive<HV>>(true); }
MC_SCENARIO(heap_max) { heapRun<mg::box::BinaryHeapMaxIntrusive<HV>>(false); }
MC_SCENARIO(heap_min_obj) { heapObjRun<mg::box::BinaryHeapMin<HV>>(true); }
MC_SCENARIO(heap_max_obj) { heapObjRun<mg::box::BinaryHeapMax<HV>>(false); }
