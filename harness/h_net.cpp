// Network buffers: every operation sequence up to a depth against a byte-exact reference.
#include "mc.h"
#include "mg/box/IOVec.h"
#include "mg/net/Buffer.h"
#include "mg/net/Host.h"
#include "mg/net/URL.h"
#include <arpa/inet.h>
#include <string>
#include <string.h>
#include <stdio.h>

using namespace mg::net;

namespace {

const uint32_t CAP = (uint32_t)theBufferCopySize;

// The reference: bytes are consecutive values of one counter, so the content is described by its range.
struct Model
{
	uint32_t head = 0;
	uint32_t tail = 0;
	uint32_t size() const { return tail - head; }
};
uint8_t byteAt(uint32_t i) { return (uint8_t)(i * 31 + (i >> 8) * 7 + 1); }
void fill(uint8_t* d, uint32_t from, uint32_t n)
{
	for (uint32_t i = 0; i < n; ++i)
		d[i] = byteAt(from + i);
}
void verify(const uint8_t* d, uint32_t from, uint32_t n, const char* what)
{
	for (uint32_t i = 0; i < n; ++i)
		if (d[i] != byteAt(from + i))
			mc_fail("%s: wrong byte %u of %u", what, i, n);
}

// User memory for raw buffers: the original data must never be changed.
uint8_t gRaw[32][64];
int gRawN;
struct RawRec { uint32_t from; uint32_t n; };
RawRec gRawRec[32];

Buffer::Ptr makeRaw(Model& m, uint32_t n, uint32_t spare)
{
	uint8_t* d = gRaw[gRawN % 32];
	memset(d, 0xEE, 64);
	fill(d, m.tail, n);
	gRawRec[gRawN % 32] = {m.tail, n};
	++gRawN;
	m.tail += n;
	return BufferRaw::NewShared(d, n, n + spare);
}
Buffer::Ptr makeCopy(Model& m, uint32_t n)
{
	Buffer::Ptr b = BufferCopy::NewShared();
	fill(b->myWData, m.tail, n);
	b->myPos = n;
	m.tail += n;
	return b;
}
const int LIST_KINDS = 10;
Buffer::Ptr makeList(int kind, Model& m)
{
	Buffer::Ptr a, b;
	switch (kind)
	{
	case 0: return makeRaw(m, 3, 0);
	case 1: return makeRaw(m, 2, 3);
	case 2: return makeCopy(m, 2);
	case 3: return makeCopy(m, CAP);
	case 4: a = makeRaw(m, 1, 0); a->myNext = makeRaw(m, 2, 0); return a;
	case 5: a = makeRaw(m, 1, 2); a->myNext = makeCopy(m, 1); return a;
	case 6: a = makeCopy(m, 3); a->myNext = makeRaw(m, 1, 0); return a;
	// Empty buffers.
	case 7: return makeRaw(m, 0, 0);
	case 8: a = makeRaw(m, 0, 0); a->myNext = makeRaw(m, 2, 0); return a;
	default: a = makeRaw(m, 2, 0); a->myNext = makeRaw(m, 0, 4); return a;
	}
}

uint32_t pickSize(uint32_t max, int kinds)
{
	// Interesting sizes not above the max, without repetitions.
	uint32_t c[] = {max, 1, max - 1, max / 2, CAP - 1, CAP, CAP + 1, 2};
	uint32_t u[8];
	int n = 0;
	for (int i = 0; i < kinds && i < 8; ++i)
	{
		bool ok = c[i] <= max && c[i] > 0;
		for (int k = 0; k < n; ++k)
			ok = ok && u[k] != c[i];
		if (ok)
			u[n++] = c[i];
	}
	return n == 0 ? 0 : u[mc_choose(n)];
}

void checkStream(BufferStream& s, const Model& m)
{
	MC_CHECKF(s.GetReadSize() == m.size(), "read size is %d, expected %d", (int)s.GetReadSize(), (int)m.size());
	uint32_t left = m.size(), from = m.head;
	const Buffer* b = s.GetReadPos();
	while (left > 0)
	{
		MC_CHECKF(b != nullptr, "the readable data is cut");
		MC_CHECK(b->myPos <= b->myCapacity);
		uint32_t n = b->myPos < left ? b->myPos : left;
		MC_CHECKF(b->myPos <= left, "more readable data than the size says");
		verify(b->myRData, from, n, "readable data");
		from += n;
		left -= n;
		b = b->myNext.GetPointer();
	}
	uint64_t w = 0;
	for (Buffer* p = s.GetWritePos(); p != nullptr; p = p->myNext.GetPointer())
		w += p->myCapacity - p->myPos;
	MC_CHECKF(w == s.GetWriteSize(), "write size is %d, the free space is %d", (int)s.GetWriteSize(), (int)w);
	if (s.IsEmpty())
		MC_CHECK(m.size() == 0 && w == 0);
	if (m.size() > 0)
	{
		// Peek at everything and at a prefix.
		static uint8_t buf[64 * 1024];
		s.PeekData(buf, m.size());
		verify(buf, m.head, m.size(), "peeked data");
		s.PeekData(buf, (m.size() + 1) / 2);
		verify(buf, m.head, (m.size() + 1) / 2, "peeked data");
	}
}
}

MC_SCENARIO(buffer_stream)
{
	int depth = (int)mc_param("depth", 4);
	int lists = (int)mc_param("lists", 7);
	int sizes = (int)mc_param("sizes", 4);
	BufferStream s;
	Model m;
	gRawN = 0;
	static uint8_t buf[64 * 1024];
	Buffer::Ptr popped[8];
	Model poppedRange[8];
	int npopped = 0;
	static const uint32_t ws[] = {1, CAP, CAP + 1, CAP - 1, 2 * CAP, 0};
	for (int step = 0; step < depth; ++step)
	{
		switch (mc_choose(7))
		{
		case 0: // write a copy
		{
			uint32_t n = ws[mc_choose(4 + (sizes > 4 ? 2 : 0))];
			fill(buf, m.tail, n);
			s.WriteCopy(buf, n);
			memset(buf, 0xCC, n);
			m.tail += n;
			mc_log("copy %u", n);
			break;
		}
		case 1: // reserve and receive
		{
			uint32_t n = ws[mc_choose(sizes > 4 ? 5 : 3)];
			s.EnsureWriteSize(n);
			MC_CHECKF(s.GetWriteSize() >= n, "the requested space is not reserved");
			mc_log("reserve %u", n);
			checkStream(s, m);
			if (mc_choose(2) == 0)
				break;
			mg::box::IOVec v[8];
			uint32_t cnt = BuffersToIOVecsForRead(s.GetWritePos(), v, 8);
			MC_CHECK(cnt > 0 && cnt <= 8);
			uint32_t avail = 0;
			for (uint32_t i = 0; i < cnt; ++i)
				avail += (uint32_t)v[i].mySize;
			MC_CHECKF(avail == s.GetWriteSize() || cnt == 8, "not all the free space is in the vectors");
			uint32_t take = mc_choose(2) ? pickSize(avail, sizes) : 0;
			if (take == 0 && mc_param("zero", 1) == 0)
				break;
			mc_log("receive %u", take);
			uint32_t left = take, from = m.tail;
			for (uint32_t i = 0; i < cnt && left > 0; ++i)
			{
				uint32_t k = v[i].mySize < left ? (uint32_t)v[i].mySize : left;
				fill((uint8_t*)v[i].myData, from, k);
				from += k;
				left -= k;
			}
			s.PropagateWritePos(take);
			m.tail += take;
			break;
		}
		case 2: // write a reference
		{
			int k = mc_choose(lists);
			mc_log("ref %d", k);
			s.WriteRef(makeList(k, m));
			break;
		}
		case 3: // skip
		{
			uint32_t n = pickSize(m.size(), sizes);
			mc_log("skip %u", n);
			s.SkipData(n);
			m.head += n;
			break;
		}
		case 4: // read
		{
			uint32_t n = pickSize(m.size(), sizes);
			mc_log("read %u", n);
			s.ReadData(buf, n);
			verify(buf, m.head, n, "read data");
			m.head += n;
			break;
		}
		case 5: // pop everything
		{
			mc_log("pop");
			Buffer::Ptr p = s.PopData();
			MC_CHECKF(p.IsSet() == (m.size() > 0) || mc_param("lists", 7) > 7, "a wrong result of a pop");
			popped[npopped] = p;
			poppedRange[npopped++] = m;
			m.head = m.tail;
			break;
		}
		case 6:
			mc_log("clear");
			s.Clear();
			m.head = m.tail;
			MC_CHECK(s.IsEmpty() && s.GetWriteSize() == 0);
			break;
		}
		mc_log("%s", s.ToString().c_str());
		checkStream(s, m);
		// What is popped is not changed by the stream anymore.
		for (int i = 0; i < npopped; ++i)
		{
			uint32_t from = poppedRange[i].head;
			for (const Buffer* b = popped[i].GetPointer(); b != nullptr; b = b->myNext.GetPointer())
			{
				verify(b->myRData, from, b->myPos, "popped data");
				from += b->myPos;
			}
			MC_CHECKF(from == poppedRange[i].tail, "popped data is of a wrong size");
		}
	}
	// The memory given by the user is never written before the end of the data.
	for (int i = 0; i < gRawN && i < 32; ++i)
		verify(gRaw[i], gRawRec[i].from, gRawRec[i].n, "user's data");
}

// ------------------------------------------------------------------------------------
// Lists of buffer links. The same buffers are referenced from two lists, like in a broadcast.

namespace {

struct LinkModel
{
	// The content of the list as [from, to) ranges of the global byte counter.
	struct R { uint32_t from; uint32_t to; } r[64];
	int n = 0;
	void add(uint32_t from, uint32_t to)
	{
		if (from < to)
			r[n++] = {from, to};
	}
	uint32_t size() const
	{
		uint32_t res = 0;
		for (int i = 0; i < n; ++i)
			res += r[i].to - r[i].from;
		return res;
	}
	void skip(uint32_t k)
	{
		int j = 0;
		for (int i = 0; i < n; ++i)
		{
			uint32_t l = r[i].to - r[i].from;
			uint32_t d = l < k ? l : k;
			k -= d;
			if (d < l)
				r[j++] = {r[i].from + d, r[i].to};
		}
		n = j;
	}
};

void expect(const LinkModel& m, const uint8_t* d, uint32_t n, uint32_t& pos, const char* what)
{
	uint32_t off = 0, k = 0;
	for (int i = 0; i < m.n && k < n; ++i)
	{
		uint32_t l = m.r[i].to - m.r[i].from;
		for (uint32_t b = 0; b < l && k < n; ++b, ++off)
		{
			if (off < pos)
				continue;
			if (d[k] != byteAt(m.r[i].from + b))
				mc_fail("%s: wrong byte %u", what, pos + k);
			++k;
		}
	}
	MC_CHECKF(k == n, "%s: more data than expected", what);
	pos += n;
}

void checkCopy(const LinkModel& m, uint32_t skipped, const Buffer::Ptr& copy, const char* what)
{
	// The head can't be skipped partially by a copy, so the model is of the full buffers.
	(void)skipped;
	uint32_t pos = 0;
	for (const Buffer* b = copy.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
	{
		MC_CHECK(b->myPos <= b->myCapacity);
		MC_CHECKF(b->myPos > 0, "%s: empty buffer in the copy", what);
		expect(m, b->myRData, b->myPos, pos, what);
	}
	MC_CHECKF(pos == m.size(), "%s: %u bytes instead of %u", what, pos, m.size());
	MC_CHECKF(copy.IsSet() == (m.size() > 0), "%s: wrong emptiness", what);
}

void checkLinks(BufferLinkList& l, uint32_t offset, const LinkModel& m)
{
	mg::box::IOVec v[40];
	for (uint32_t max : {1u, 2u, 3u, 40u})
	{
		for (auto& x : v)
			x.myData = nullptr, x.mySize = 0;
		uint32_t n = BuffersToIOVecsForWrite(l, offset, v, max);
		MC_CHECK(n <= max);
		uint32_t pos = 0;
		for (uint32_t i = 0; i < n; ++i)
		{
			MC_CHECKF(v[i].mySize > 0, "empty vector");
			expect(m, (const uint8_t*)v[i].myData, (uint32_t)v[i].mySize, pos, "vectors");
		}
		MC_CHECKF(pos == m.size() || n == max, "the vectors have %u bytes instead of %u", pos, m.size());
		for (uint32_t i = max; i < 40; ++i)
			MC_CHECKF(v[i].mySize == 0, "a vector above the limit is changed");
	}
	if (offset == 0)
	{
		checkCopy(m, 0, BuffersCopy(l.GetFirst()), "copy of links");
		// A list made of one link.
		const BufferLink* f = l.GetFirst();
		if (f != nullptr && f->myNext == nullptr)
		{
			checkCopy(m, 0, BuffersCopy(f->myHead), "copy of buffers");
			uint32_t n = BuffersToIOVecsForWrite(f->myHead, 0, v, 40);
			uint32_t pos = 0;
			for (uint32_t i = 0; i < n; ++i)
				expect(m, (const uint8_t*)v[i].myData, (uint32_t)v[i].mySize, pos, "vectors of buffers");
			MC_CHECK(pos == m.size());
		}
	}
}

// Each call returns a new buffer list and its content.
Buffer::Ptr linkBuf(int kind, Model& m, LinkModel& c)
{
	uint32_t from = m.tail;
	Buffer::Ptr res;
	Buffer* t;
	switch (kind)
	{
	case 0: res = makeRaw(m, 3, 0); break;
	case 3: res = makeRaw(m, 1, 2); t = res.GetPointer(); t->myNext = makeCopy(m, 2); break;
	case 1: res = makeRaw(m, 0, 0); t = res.GetPointer(); t->myNext = makeRaw(m, 2, 0); break;
	case 2: res = makeRaw(m, 2, 0); t = res.GetPointer(); t->myNext = makeRaw(m, 0, 3); break;
	case 4: res = makeRaw(m, 0, 3); break;
	case 5: res = makeCopy(m, CAP); t = res.GetPointer(); t->myNext = makeCopy(m, 1); break;
	default: res = makeRaw(m, 1, 0); t = res.GetPointer(); t->myNext = makeRaw(m, 0, 0); t = t->myNext.GetPointer(); t->myNext = makeRaw(m, 2, 0); break;
	}
	c.add(from, m.tail);
	return res;
}
const int LINK_KINDS = 7;
}

MC_SCENARIO(buffer_links)
{
	int depth = (int)mc_param("depth", 4);
	int sizes = (int)mc_param("sizes", 4);
	int kinds = (int)mc_param("kinds", LINK_KINDS);
	BufferLinkList l[2];
	LinkModel m[2];
	uint32_t off[2] = {0, 0};
	Model src;
	gRawN = 0;
	static uint8_t buf[4 * 1024];
	bool used1 = false;
	for (int step = 0; step < depth; ++step)
	{
		int op = mc_choose(9);
		// The lists are symmetrical until they get different contents.
		int i = used1 ? mc_choose(2) : 0;
		uint32_t from = src.tail;
		LinkModel c;
		switch (op)
		{
		case 0: // both the lists share the buffers
		{
			Buffer::Ptr p = linkBuf(mc_choose(kinds), src, c);
			l[0].AppendRef(p);
			l[1].AppendRef(p.GetPointer());
			for (int k = 0; k < c.n; ++k)
			{
				m[0].add(c.r[k].from, c.r[k].to);
				m[1].add(c.r[k].from, c.r[k].to);
			}
			used1 = true;
			mc_log("shared ref");
			break;
		}
		case 1:
			l[i].AppendRef(linkBuf(mc_choose(kinds), src, m[i]));
			mc_log("ref to %d", i);
			break;
		case 2:
		{
			static const uint32_t ns[] = {1, CAP + 1, CAP, 0, 2 * CAP};
			uint32_t n = ns[mc_choose(kinds < 4 ? 2 : 5)];
			fill(buf, from, n);
			l[i].AppendCopy(buf, n);
			memset(buf, 0xCC, n);
			src.tail += n;
			m[i].add(from, src.tail);
			mc_log("copy %u to %d", n, i);
			break;
		}
		case 3:
		{
			uint32_t n = mc_choose(2) * 5;
			uint8_t* d = gRaw[gRawN % 32];
			fill(d, from, n);
			gRawRec[gRawN % 32] = {from, n};
			++gRawN;
			l[i].AppendRef(d, n);
			src.tail += n;
			m[i].add(from, src.tail);
			mc_log("data ref %u to %d", n, i);
			break;
		}
		case 4: // a list of links
		{
			BufferLink* a = new BufferLink(linkBuf(mc_choose(kinds), src, m[i]));
			if (mc_choose(2))
			{
				a->myNext = new BufferLink(linkBuf(0, src, m[i]));
				a->myNext->myNext = new BufferLink(linkBuf(2, src, m[i]));
			}
			l[i].AppendMove(a);
			mc_log("links to %d", i);
			break;
		}
		case 5: // list append
		{
			if (off[1 - i] != 0)
				mc_discard();
			l[i].Append(std::move(l[1 - i]));
			for (int k = 0; k < m[1 - i].n; ++k)
				m[i].add(m[1 - i].r[k].from, m[1 - i].r[k].to);
			m[1 - i].n = 0;
			MC_CHECK(l[1 - i].IsEmpty());
			mc_log("append list %d to %d", 1 - i, i);
			break;
		}
		case 6:
		{
			uint32_t n = pickSize(m[i].size(), sizes);
			l[i].SkipData(off[i], n);
			m[i].skip(n);
			mc_log("skip %u of %d", n, i);
			if (m[i].size() == 0)
				MC_CHECKF(off[i] == 0, "an offset in an empty list");
			break;
		}
		case 7:
			// The offset is also allowed to cover the first buffer entirely.
			if (!l[i].IsEmpty() && l[i].GetFirst()->myHead.IsSet() && l[i].GetFirst()->myHead->myPos > off[i] && mc_choose(2))
			{
				uint32_t size = l[i].GetFirst()->myHead->myPos;
				m[i].skip(size - off[i]);
				off[i] = size;
				l[i].SkipEmptyPrefix(off[i]);
				mc_log("skip used first of %d", i);
			}
			else
			{
				l[i].SkipEmptyPrefix(off[i]);
				mc_log("skip empty of %d", i);
			}
			if (m[i].size() == 0)
			{
				MC_CHECKF(off[i] == 0 && l[i].IsEmpty(), "an empty list has links after dropping of its empty prefix");
			}
			else
			{
				MC_CHECK(!l[i].IsEmpty() && l[i].GetFirst()->myHead.IsSet());
				MC_CHECKF(l[i].GetFirst()->myHead->myPos > off[i], "the head is still empty");
			}
			break;
		case 8:
			l[i].Clear();
			off[i] = 0;
			m[i].n = 0;
			MC_CHECK(l[i].IsEmpty());
			mc_log("clear %d", i);
			break;
		}
		checkLinks(l[0], off[0], m[0]);
		checkLinks(l[1], off[1], m[1]);
	}
	for (int i = 0; i < gRawN && i < 32; ++i)
		verify(gRaw[i], gRawRec[i].from, gRawRec[i].n, "user's data");
}

// Growth and shrinking of plain chains of buffers, as if they were one big buffer.
MC_SCENARIO(buffer_propagate)
{
	static uint8_t mem[4][4];
	static const struct { int pos, cap; } shapes[] = {{0, 0}, {0, 1}, {0, 3}, {1, 1}, {1, 3}, {3, 3}};
	int n = 1 + mc_choose(4);
	bool write = mc_choose(2);
	Buffer::Ptr head;
	Buffer* tail = nullptr;
	Buffer* bufs[4];
	int pos[4], cap[4], space = 0, total = 0;
	uint8_t bytes[16];
	for (int i = 0; i < n; ++i)
	{
		int k = mc_choose(6);
		pos[i] = shapes[k].pos;
		cap[i] = shapes[k].cap;
		for (int j = 0; j < 4; ++j)
			mem[i][j] = (uint8_t)(i * 16 + j + 1);
		for (int j = 0; j < pos[i]; ++j)
			bytes[total++] = mem[i][j];
		space += cap[i] - pos[i];
		Buffer::Ptr b = mg::net::BufferRaw::NewShared(mem[i], (uint32_t)pos[i], (uint32_t)cap[i]);
		bufs[i] = b.GetPointer();
		if (tail == nullptr)
			head = std::move(b);
		else
			tail->myNext = std::move(b);
		tail = bufs[i];
	}
	mg::box::IOVec v[8];
	if (write)
	{
		int size = mc_choose(space + 1);
		Buffer* end = mg::net::BuffersPropagateOnWrite(bufs[0], size);
		int left = size, last = 0;
		for (int i = 0; i < n; ++i)
		{
			int k = std::min(left, cap[i] - pos[i]);
			if (left > 0)
				last = i;
			left -= k;
			MC_CHECKF((int)bufs[i]->myPos == pos[i] + k && (int)bufs[i]->myCapacity == cap[i], "a buffer is filled to %d instead of %d", (int)bufs[i]->myPos, pos[i] + k);
			MC_CHECK(bufs[i]->myRData == mem[i]);
		}
		MC_CHECKF(end == bufs[last], "the end of the written data is in a wrong buffer");
		return;
	}
	int size = mc_choose(total + 1);
	mg::net::BuffersPropagateOnRead(head, size);
	int got = size;
	uint32_t cnt = mg::net::BuffersToIOVecsForWrite(head, 0, v, 8);
	for (uint32_t i = 0; i < cnt; ++i)
		for (uint32_t j = 0; j < v[i].mySize; ++j, ++got)
			MC_CHECKF(got < total && ((uint8_t*)v[i].myData)[j] == bytes[got], "byte %d after a read is wrong", got);
	MC_CHECKF(got == total, "%d bytes of %d are left", got - size, total - size);
	for (Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
	{
		MC_CHECK(b->myPos <= b->myCapacity);
		int i = 0;
		while (bufs[i] != b)
			++i;
		MC_CHECKF(b->myRData + b->myCapacity == mem[i] + cap[i], "the end of a buffer is moved");
	}
}

// References on huge data. It isn't touched, only the pointers are split.
MC_SCENARIO(buffer_huge_ref)
{
	static const uint64_t mul[] = {0, 1, 2, 3};
	static const int64_t add[] = {0, 1, 2, -1, 100};
	uint64_t mx = UINT32_MAX;
	uint64_t size = mx * mul[mc_choose(4)] + add[mc_choose(5)];
	if ((int64_t)size < 0)
		mc_discard();
	const uint8_t* base = (const uint8_t*)0x100000000000;
	Buffer::Ptr h;
	BufferLinkList l;
	if (mc_choose(2))
	{
		h = BuffersRef(base, size);
	}
	else
	{
		l.AppendRef(base, size);
		if (!l.IsEmpty())
			h = l.GetFirst()->myHead;
	}
	uint64_t pos = 0;
	for (Buffer* b = h.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
	{
		MC_CHECK(b->myPos > 0 && b->myPos == b->myCapacity);
		MC_CHECKF(b->myRData == base + pos, "a wrong position of a reference");
		pos += b->myPos;
	}
	MC_CHECKF(pos == size, "references cover %llu bytes instead of %llu", (unsigned long long)pos, (unsigned long long)size);
	// Skip of a part and of the rest.
	if (size > 0 && !l.IsEmpty())
	{
		uint32_t off = 0;
		uint64_t part[] = {1, size / 2, size - 1, mx, size};
		uint64_t n = part[mc_choose(5)];
		if (n > size)
			mc_discard();
		l.SkipData(off, n);
		if (n == size)
		{
			MC_CHECK(l.IsEmpty() && off == 0);
			return;
		}
		mg::box::IOVec v[8];
		uint32_t c = BuffersToIOVecsForWrite(l, off, v, 8);
		uint64_t left = 0;
		MC_CHECK(c > 0 && v[0].myData == base + n);
		for (uint32_t i = 0; i < c; ++i)
			left += v[i].mySize;
		MC_CHECKF(left == size - n, "a wrong rest after a skip");
	}
}

// ------------------------------------------------------------------------------------
// Addresses and URLs.

namespace {

bool refPort(const std::string& s, uint16_t& port)
{
	if (s.empty())
		return false;
	uint64_t v = 0;
	for (char c : s)
	{
		if (c < '0' || c > '9')
			return false;
		v = v * 10 + (c - '0');
		if (v > 65535)
			v = 65536;
	}
	port = (uint16_t)v;
	return v <= 65535;
}

// The reference: <ip4>[:<port>], <ip6>, [<ip6>][:<port>].
bool refHost(const std::string& s, int& fam, uint8_t* addr, uint16_t& port)
{
	port = 0;
	memset(addr, 0, 16);
	if (!s.empty() && s[0] == '[')
	{
		size_t e = s.find(']');
		if (e == std::string::npos)
			return false;
		fam = AF_INET6;
		if (inet_pton(AF_INET6, s.substr(1, e - 1).c_str(), addr) != 1)
			return false;
		if (e + 1 == s.size())
			return true;
		return s[e + 1] == ':' && refPort(s.substr(e + 2), port);
	}
	fam = AF_INET6;
	if (inet_pton(AF_INET6, s.c_str(), addr) == 1)
		return true;
	memset(addr, 0, 16);
	fam = AF_INET;
	size_t e = s.find(':');
	if (inet_pton(AF_INET, s.substr(0, e).c_str(), addr) != 1)
		return false;
	return e == std::string::npos || refPort(s.substr(e + 1), port);
}

void checkHost(const Host& h, int fam, const uint8_t* addr, uint16_t port)
{
	MC_CHECKF(h.IsSet() && h.IsIPV4() == (fam == AF_INET) && h.IsIPV6() == (fam == AF_INET6), "a wrong address family");
	MC_CHECKF(h.GetPort() == port, "port is %u, expected %u", h.GetPort(), port);
	if (fam == AF_INET)
	{
		MC_CHECKF(memcmp(&h.myAddrIn.sin_addr, addr, 4) == 0, "a wrong ipv4 address");
		MC_CHECK(h.GetSockaddrSize() == sizeof(sockaddr_in));
	}
	else
	{
		MC_CHECKF(memcmp(&h.myAddrIn6.sin6_addr, addr, 16) == 0, "a wrong ipv6 address");
		MC_CHECK(h.GetSockaddrSize() == sizeof(sockaddr_in6));
		MC_CHECKF(h.myAddrIn6.sin6_scope_id == 0 && h.myAddrIn6.sin6_flowinfo == 0, "garbage in an address");
	}
}

void checkRoundTrip(const Host& h)
{
	Host h2;
	MC_CHECKF(h2.Set(h.ToString()), "the string form is not parsed back: %s", h.ToString().c_str());
	MC_CHECKF(h2 == h && !(h2 != h) && h2.IsEqualNoPort(h), "the string form is parsed into another address: %s", h.ToString().c_str());
	MC_CHECKF(h2.GetPort() == h.GetPort(), "the string form has another port: %s", h.ToString().c_str());
	MC_CHECKF(h2.ToString() == h.ToString(), "two string forms of one address");
	Host h3;
	MC_CHECKF(h3.Set(h.ToStringNoPort()), "the string form without a port is not parsed back: %s", h.ToStringNoPort().c_str());
	MC_CHECK(h3.IsEqualNoPort(h) && h3.GetPort() == 0);
	MC_CHECKF((h3 == h) == (h.GetPort() == 0), "equality ignores the port");
	Host h4(&h.myAddr);
	MC_CHECKF(h4 == h, "a copy of a system address is different");
	h4.SetPort(h.GetPort() ^ 0x8001);
	MC_CHECKF(h4 != h && h4.IsEqualNoPort(h) && h4.GetPort() == (h.GetPort() ^ 0x8001), "a wrong port change");
}
}

// Every combination of up to N tokens is parsed like the reference does.
MC_SCENARIO(host_parse)
{
	static const char* tok[] = {"127.0.0.1", "::1", "[", "]", ":", "80", "0", "65535", "65536", "1.2.3", ".4", "a", "",
		"ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255", "255.255.255.255", "99999999999999999999", "::", "-1", "host", "fe80::1:2", "[::1]", "00000000000000000000000000000000000000"};
	int ntok = (int)mc_param("tokens", 22);
	int n = (int)mc_param("depth", 3);
	std::string s;
	for (int i = 0; i < n; ++i)
	{
		int k = mc_choose(ntok + 1);
		if (k == ntok)
			break;
		s += tok[k];
	}
	int fam = 0;
	uint8_t addr[16];
	uint16_t port = 0;
	bool ok = refHost(s, fam, addr, port);
	Host h("9.8.7.6:54");
	Host before = h;
	bool res = h.Set(s);
	MC_CHECKF(res == ok, "'%s' is %s, but should not be", s.c_str(), res ? "accepted" : "rejected");
	Host h2(s);
	if (ok)
	{
		checkHost(h, fam, addr, port);
		MC_CHECK(h2 == h);
		checkRoundTrip(h);
		mc_outcome("valid");
	}
	else
	{
		MC_CHECKF(h == before, "a failed parse has changed the address");
		MC_CHECKF(!h2.IsSet() && h2 == Host(), "a host from an invalid string is set");
		mc_outcome("invalid");
	}
}

// All the octet / group combinations of an alphabet and all the ports.
MC_SCENARIO(host_values)
{
	static const uint8_t oct[] = {0, 1, 9, 10, 99, 100, 199, 255};
	static const uint16_t grp[] = {0, 1, 0xFFFF, 0x0A0B};
	int kind = mc_choose(3);
	if (kind == 0)
	{
		int a = mc_choose(8), b = mc_choose(8);
		for (int c = 0; c < 64; ++c)
		{
			SockaddrIn s;
			SockaddrInCreate(s);
			uint8_t ip[4] = {oct[a], oct[b], oct[c / 8], oct[c % 8]};
			memcpy(&s.sin_addr, ip, 4);
			uint16_t port = c % 3 == 0 ? 65535 : c % 3;
			s.sin_port = HtoNs(port);
			Host h((Sockaddr*)&s);
			uint8_t addr[16] = {ip[0], ip[1], ip[2], ip[3]};
			checkHost(h, AF_INET, addr, port);
			char buf[64];
			snprintf(buf, sizeof(buf), "%u.%u.%u.%u:%u", ip[0], ip[1], ip[2], ip[3], port);
			MC_CHECKF(h.ToString() == buf, "string is %s, expected %s", h.ToString().c_str(), buf);
			checkRoundTrip(h);
		}
	}
	else if (kind == 1)
	{
		int a = mc_choose(16), b = mc_choose(16);
		for (int c = 0; c < 256; ++c)
		{
			int v[8] = {a / 4, a % 4, b / 4, b % 4, c / 64, c / 16 % 4, c / 4 % 4, c % 4};
			SockaddrIn6 s;
			SockaddrIn6Create(s);
			uint8_t addr[16];
			for (int i = 0; i < 8; ++i)
			{
				addr[i * 2] = (uint8_t)(grp[v[i]] >> 8);
				addr[i * 2 + 1] = (uint8_t)grp[v[i]];
			}
			memcpy(&s.sin6_addr, addr, 16);
			uint16_t port = c % 3 == 0 ? 65535 : c % 3;
			s.sin6_port = HtoNs(port);
			Host h((Sockaddr*)&s);
			checkHost(h, AF_INET6, addr, port);
			checkRoundTrip(h);
			// One different group.
			Host h2 = h;
			((uint8_t*)&h2.myAddrIn6.sin6_addr)[c % 16] ^= 1;
			MC_CHECKF(h2 != h && !h2.IsEqualNoPort(h), "different addresses are equal");
		}
	}
	else
	{
		static const char* ips[] = {"127.0.0.1", "[::1]", "0.0.0.0", "[::]"};
		int fam = mc_choose(4);
		int hi = mc_choose(256);
		for (int lo = 0; lo < 256; ++lo)
		{
			uint16_t port = (uint16_t)(hi * 256 + lo);
			Host h = fam == 0 ? HostMakeLocalIPV4(port) : fam == 1 ? HostMakeLocalIPV6(port) : fam == 2 ? HostMakeAllIPV4(port) : HostMakeAllIPV6(port);
			MC_CHECKF(h.GetPort() == port, "a wrong port");
			char buf[64];
			snprintf(buf, sizeof(buf), "%s:%u", ips[fam], port);
			MC_CHECKF(h.ToString() == buf, "string is %s, expected %s", h.ToString().c_str(), buf);
			Host h2;
			MC_CHECKF(h2.Set(buf) && h2 == h, "a wrong parse of %s", buf);
			MC_CHECKF((fam % 2 == 0 ? (const void*)&h.myAddrIn.sin_port : (const void*)&h.myAddrIn6.sin6_port) != nullptr &&
				((const uint8_t*)&h.myAddrIn.sin_port)[0] == hi && ((const uint8_t*)&h.myAddrIn.sin_port)[1] == lo, "the port is not in the network order");
			Host h3(ips[fam]);
			h3.SetPort(port);
			MC_CHECKF(h3 == h, "a wrong set of a port");
		}
	}
}

// Every combination of up to N tokens of URL parts.
MC_SCENARIO(url_parse)
{
	static const char* tok[] = {"://", "/", ":", "host", "80", "65536", "x.y", "?a=b", "0", "65535"};
	int ntok = (int)mc_param("tokens", 10);
	int n = (int)mc_param("depth", 5);
	std::string s;
	for (int i = 0; i < n; ++i)
	{
		int k = mc_choose(ntok + 1);
		if (k == ntok)
			break;
		s += tok[k];
	}
	// The reference is a scanner by chars: [proto://]host[:port][/target].
	std::string proto, host, target, portStr;
	bool hasPort = false;
	size_t i = 0;
	size_t slash = s.find('/');
	if (slash != std::string::npos && slash > 0 && s[slash - 1] == ':' && s.size() > slash + 1 && s[slash + 1] == '/')
	{
		proto = s.substr(0, slash - 1);
		i = slash + 2;
	}
	for (; i < s.size() && s[i] != '/'; ++i)
	{
		if (hasPort)
			portStr += s[i];
		else if (s[i] == ':')
			hasPort = true;
		else
			host += s[i];
	}
	target = s.substr(i);
	uint16_t port = 0;
	if (!hasPort || !refPort(portStr, port))
		port = 0;
	URL u = mc_choose(2) ? URLParse(s) : URLParse(s.c_str());
	MC_CHECKF(u.myProtocol == proto, "'%s': protocol is '%s', expected '%s'", s.c_str(), u.myProtocol.c_str(), proto.c_str());
	MC_CHECKF(u.myHost == host, "'%s': host is '%s', expected '%s'", s.c_str(), u.myHost.c_str(), host.c_str());
	MC_CHECKF(u.myPort == port, "'%s': port is %u, expected %u", s.c_str(), u.myPort, port);
	MC_CHECKF(u.myTarget == target, "'%s': target is '%s', expected '%s'", s.c_str(), u.myTarget.c_str(), target.c_str());
}
