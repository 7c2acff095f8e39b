// The support library of the tests and the benchmarks: messages, metrics, command line.
#include "mc.h"
#include "mg/box/Thread.h"
#include "mg/net/Buffer.h"
#include "mg/test/CommandLine.h"
#include "mg/test/Message.h"
#include "mg/test/MetricMovingAverage.h"
#include "mg/test/MetricSpeed.h"
#include <string>
#include <string.h>

using namespace mg::tst;
using mg::net::Buffer;

namespace {

struct Field { int kind; uint64_t val; };

std::string text(uint64_t v, int len)
{
	std::string s;
	for (int i = 0; i < len; ++i)
		s += (char)('a' + (v + i * 3) % 26);
	return s;
}
const int theKinds = 12;
const int theLens[] = {0, 1, 6, 257};

int sizeOf(const Field& f)
{
	static const int sizes[] = {1, 2, 4, 8, 1, 2, 4, 8, 1};
	if (f.kind < 9) return sizes[f.kind];
	if (f.kind == 9) return 5;
	return 8 + theLens[f.val % 4];
}

void write(WriteMessage& m, const Field& f)
{
	uint64_t v = f.val * 0x0123456789ABCDEFull + 0xF1;
	switch (f.kind)
	{
	case 0: m.WriteUInt8((uint8_t)v); break;
	case 1: m.WriteUInt16((uint16_t)v); break;
	case 2: m.WriteUInt32((uint32_t)v); break;
	case 3: m.WriteUInt64(v); break;
	case 4: m.WriteInt8((int8_t)-(int)f.val - 1); break;
	case 5: m.WriteInt16((int16_t)-(int)f.val - 1); break;
	case 6: m.WriteInt32((int32_t)-(int)f.val - 1); break;
	case 7: m.WriteInt64(-(int64_t)f.val - 1); break;
	case 8: m.WriteBool(f.val & 1); break;
	case 9: m.WriteData(text(f.val, 5).data(), 5); break;
	case 10: m.WriteString(text(f.val, theLens[f.val % 4])); break;
	default: m.WriteString(text(f.val, theLens[f.val % 4]).c_str()); break;
	}
}

template <typename T>
void same(T a, T b) { MC_CHECKF(a == b, "a value is read wrong"); }

void read(ReadMessage& m, const Field& f, bool skip)
{
	if (skip)
	{
		m.SkipBytes(sizeOf(f));
		return;
	}
	uint64_t v = f.val * 0x0123456789ABCDEFull + 0xF1;
	switch (f.kind)
	{
	case 0: { uint8_t r; m.ReadUInt8(r); same(r, (uint8_t)v); break; }
	case 1: { uint16_t r; m.ReadUInt16(r); same(r, (uint16_t)v); break; }
	case 2: { uint32_t r; m.ReadUInt32(r); same(r, (uint32_t)v); break; }
	case 3: { uint64_t r; m.ReadUInt64(r); same(r, v); break; }
	case 4: { int8_t r; m.ReadInt8(r); same(r, (int8_t)(-(int)f.val - 1)); break; }
	case 5: { int16_t r; m.ReadInt16(r); same(r, (int16_t)(-(int)f.val - 1)); break; }
	case 6: { int32_t r; m.ReadInt32(r); same(r, (int32_t)(-(int)f.val - 1)); break; }
	case 7: { int64_t r; m.ReadInt64(r); same(r, -(int64_t)f.val - 1); break; }
	case 8: { bool r; m.ReadBool(r); same(r, (f.val & 1) != 0); break; }
	case 9: { char r[5]; m.ReadData(r, 5); MC_CHECKF(memcmp(r, text(f.val, 5).data(), 5) == 0, "data is read wrong"); break; }
	default:
	{
		std::string r = "old";
		m.ReadString(r);
		MC_CHECKF(r == text(f.val, theLens[f.val % 4]), "a string is read wrong");
		break;
	}
	}
}

}

// Messages of any fields, taken together or apart, delivered in any cut: each is complete exactly when all of it
// is there and reads back the same.
MC_SCENARIO(msg_roundtrip)
{
	int maxFields = (int)mc_param("fields", 2);
	int count = (int)mc_param("messages", 2);
	Field fields[3][4];
	int n[3];
	uint64_t size[3];
	std::string wire;
	WriteMessage* w = new WriteMessage();
	uint64_t total = 0;
	auto take = [&]() {
		MC_CHECKF(w->GetTotalSize() == total, "the total size is wrong");
		Buffer::Ptr head = w->TakeData();
		MC_CHECK(w->GetTotalSize() == 0);
		size_t before = wire.size();
		for (Buffer* b = head.GetPointer(); b != nullptr; b = b->myNext.GetPointer())
		{
			MC_CHECKF(b->myPos <= b->myCapacity, "a buffer is overfilled");
			wire.append((const char*)b->myRData, b->myPos);
		}
		MC_CHECKF(wire.size() - before == total, "the data has %d bytes instead of %d", (int)(wire.size() - before), (int)total);
		total = 0;
	};
	for (int i = 0; i < count; ++i)
	{
		// The later messages are only about the surroundings.
		bool full = i == 0 || mc_param("full", 0);
		n[i] = mc_choose((full ? maxFields : 1) + 1);
		size[i] = 8;
		w->Open();
		for (int k = 0; k < n[i]; ++k)
		{
			fields[i][k] = {full ? mc_choose(theKinds) : mc_choose(3) * 4, (uint64_t)(i * 3 + k)};
			if (fields[i][k].kind >= 10)
				fields[i][k].val = mc_choose(4);
			write(*w, fields[i][k]);
			size[i] += sizeOf(fields[i][k]);
		}
		w->Close();
		total += size[i];
		if (i + 1 < count && mc_choose(2))
			take();
	}
	take();
	delete w;
	mg::net::BufferStream* s = new mg::net::BufferStream();
	mg::net::BufferReadStream rs(*s);
	ReadMessage r(rs);
	size_t pos = 0;
	uint64_t end = 0;
	bool skip = mc_choose(2);
	static const int steps[] = {1, 7, 8, 1000};
	int step = steps[mc_choose(4)];
	int lag = mc_choose(2); // read all at the end
	for (int i = 0; i < count; ++i)
	{
		end += size[i];
		while (true)
		{
			bool complete = r.IsComplete();
			MC_CHECKF(complete == (pos >= end), "a message is %s with %d of %d bytes", complete ? "complete" : "incomplete", (int)pos, (int)end);
			if (complete && (!lag || pos == wire.size()))
				break;
			if (lag && pos >= end && pos < wire.size())
			{
				s->WriteCopy(wire.data() + pos, wire.size() - pos);
				pos = wire.size();
				continue;
			}
			size_t k = wire.size() - pos < (size_t)step ? wire.size() - pos : step;
			s->WriteCopy(wire.data() + pos, k);
			pos += k;
		}
		r.Open();
		for (int k = 0; k < n[i]; ++k)
			read(r, fields[i][k], skip && k == 0);
		r.Close();
		MC_CHECKF(r.GetAvailSize() == pos - end, "a message is not read exactly");
	}
	MC_CHECK(!r.IsComplete() && pos == wire.size());
	delete s;
	mc_outcome("%d", n[0]);
}

namespace {
MetricMovingAverage* gAvg;
MetricSpeed* gSpeed;
void metricThread(void* a)
{
	int n = (int)(long)a;
	for (int i = 0; i < n; ++i)
	{
		gAvg->Add(10);
		gSpeed->Add();
	}
}
}

// Each event is counted once, whatever switches of the buckets happen meanwhile, and is forgotten when its
// bucket is reused.
MC_SCENARIO(msg_metrics)
{
	gAvg = new MetricMovingAverage();
	gSpeed = new MetricSpeed();
	int buckets = 1 + mc_choose(3);
	gAvg->Reset(9);
	gAvg->Add(1);
	gSpeed->Reset(9);
	gSpeed->Add();
	gAvg->Reset(8);
	gSpeed->Reset(8);
	int a = mc_choose(3), b = mc_choose(3);
	int t0 = mc_spawn(metricThread, (void*)(long)a, "adder");
	int t1 = mc_spawn(metricThread, (void*)(long)b, "adder");
	gAvg->GoToNextBucket();
	gSpeed->GoToNextBucket();
	gAvg->GoToNextBucket();
	gSpeed->GoToNextBucket();
	mc_join(t0);
	mc_join(t1);
	gAvg->GoToNextBucket();
	gSpeed->GoToNextBucket();
	MC_CHECKF((int)gSpeed->Get() == a + b, "%d events are counted instead of %d", (int)gSpeed->Get(), a + b);
	MC_CHECKF(gAvg->Get() == (a + b > 0 ? 10.0 : 0.0), "the average is %lf", gAvg->Get());
	mc_serial_begin();
	gAvg->Reset(buckets);
	gSpeed->Reset(buckets);
	int hist[6];
	for (int i = 0; i < 6; ++i)
	{
		hist[i] = i * 3 % 4;
		for (int k = 0; k < hist[i]; ++k)
		{
			gAvg->Add(i + 1);
			gSpeed->Add();
		}
		gAvg->GoToNextBucket();
		gSpeed->GoToNextBucket();
		int cnt = 0, sum = 0;
		for (int k = i; k >= 0 && k > i - buckets; --k)
		{
			cnt += hist[k];
			sum += hist[k] * (k + 1);
		}
		MC_CHECKF((int)gSpeed->Get() == cnt, "%d events are counted instead of %d", (int)gSpeed->Get(), cnt);
		MC_CHECKF(gAvg->Get() == (cnt > 0 ? (double)sum / cnt : 0.0), "the average is %lf", gAvg->Get());
	}
	mc_serial_end();
	delete gAvg;
	delete gSpeed;
}

// All command lines of several words.
MC_SCENARIO(msg_cmdline)
{
	static const char* words[] = {"-a", "-b", "--c", "1", "0", "FALSE", "text", "-5", "4294967295", ""};
	int n = mc_choose(6);
	const char* argv[5];
	for (int i = 0; i < n; ++i)
		argv[i] = words[mc_choose(10)];
	const char* keys[5];
	const char* vals[5];
	int cnt = 0;
	for (int i = 0; i < n; ++i)
	{
		if (argv[i][0] != '-')
			continue;
		keys[cnt] = argv[i] + 1;
		vals[cnt++] = i + 1 < n ? argv[i + 1] : "";
		++i;
	}
	CommandLine* c = new CommandLine(n, argv);
	for (const char* k : {"a", "b", "-c", "c", "5", "x"})
	{
		const char* v = nullptr;
		for (int i = cnt - 1; i >= 0; --i)
			if (strcmp(keys[i], k) == 0)
				v = vals[i];
		std::string s = "none";
		MC_CHECKF(c->IsPresent(k) == (v != nullptr) && c->GetStr(k, s) == (v != nullptr), "an argument is %s", v != nullptr ? "lost" : "invented");
		MC_CHECKF(s == (v != nullptr ? v : "none"), "the value of an argument is wrong");
		MC_CHECKF(c->IsTrue(k) == (v != nullptr && strcmp(v, "0") != 0 && strcmp(v, "FALSE") != 0), "the truth of an argument is wrong");
		if (v != nullptr)
			MC_CHECK(c->GetStr(k) == v);
		if (v == nullptr || strcmp(v, "1") == 0 || strcmp(v, "0") == 0 || strlen(v) > 5)
		{
			uint64_t u64 = 77;
			uint32_t u32 = 77;
			uint16_t u16 = 77;
			uint64_t e = v == nullptr ? 77 : v[0] == '4' ? UINT32_MAX : (uint64_t)(v[0] - '0');
			MC_CHECKF(c->GetU64(k, u64) == (v != nullptr) && u64 == e, "a number is wrong");
			MC_CHECKF(c->GetU32(k, u32) == (v != nullptr) && u32 == e, "a number is wrong");
			if (v != nullptr)
				MC_CHECKF(c->GetU64(k) == e && c->GetU32(k) == e, "a number is wrong");
			if (e < 100)
			{
				MC_CHECKF(c->GetU16(k, u16) == (v != nullptr) && u16 == e, "a number is wrong");
				if (v != nullptr)
					MC_CHECK(c->GetU16(k) == e);
			}
		}
	}
	delete c;
}
