// Engine self-test: small random programs; the set of observable outcomes must not depend on the
// state deduplication nor on the shared address refinement.
#include "mc.h"
#include "mg/box/Atomic.h"
#include "mg/box/ConditionVariable.h"
#include "mg/box/Mutex.h"
#include "mg/box/Signal.h"
#include "mg/box/Thread.h"
#include "mg/box/Time.h"
#include <string.h>

namespace {
struct Prog { int n; int op[5]; int arg[5]; };
struct W
{
	mg::box::AtomicU32 x[2];
	mg::box::Mutex mu;
	mg::box::ConditionVariable cv;
	mg::box::Signal sig;
	uint32_t prot = 0;
	Prog p[3];
	uint32_t regs[3];
	bool flag = false;
};
W* gW;
uint64_t rnd(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s >> 11; }
void worker(void* a)
{
	int id = (int)(long)a;
	Prog& p = gW->p[id];
	uint32_t reg = id + 1;
	for (int i = 0; i < p.n; ++i)
	{
		mg::box::AtomicU32& x = gW->x[p.arg[i] & 1];
		switch (p.op[i])
		{
		case 0: reg = reg * 31 + x.LoadAcquire(); break;
		case 1: x.StoreRelease(reg); break;
		case 2: reg = reg * 31 + x.FetchAddAcqRel(id + 1); break;
		case 3: { uint32_t old = p.arg[i]; reg = reg * 31 + x.CmpExchgStrong(old, reg); break; }
		case 4: gW->mu.Lock(); reg = reg * 31 + gW->prot; mc_point(); gW->prot += reg; gW->mu.Unlock(); break;
		case 5: if (gW->mu.TryLock()) { gW->prot += 7; gW->mu.Unlock(); reg += 3; } break;
		case 6: mg::box::Sleep(p.arg[i]); break;
		case 7: mc_point(); break;
		case 8: gW->sig.Send(); break;
		case 9: reg = reg * 31 + gW->sig.Receive(); break;
		case 10: reg = reg * 31 + gW->sig.ReceiveTimed(mg::box::TimeDuration(1)); break;
		case 11: gW->mu.Lock(); gW->flag = true; gW->cv.Broadcast(); gW->mu.Unlock(); break;
		case 12: gW->mu.Lock(); if (!gW->flag) reg = reg * 31 + gW->cv.TimedWait(gW->mu, mg::box::TimeDuration(2)); reg = reg * 31 + gW->flag; gW->mu.Unlock(); break;
		case 13: reg = reg * 31 + mc_choose(2); break;
		}
	}
	gW->regs[id] = reg;
}
}
MC_SCENARIO(self)
{
	uint64_t s = (uint64_t)mc_param("seed", 1) * 0x9E3779B97F4A7C15ull + 77;
	for (int i = 0; i < 10; ++i) rnd(s);
	gW = new W();
	gW->x[0].StoreRelaxed(0);
	gW->x[1].StoreRelaxed(0);
	int nt = 2 + rnd(s) % 2;
	for (int t = 0; t < nt; ++t)
	{
		gW->p[t].n = (nt == 2 ? 2 : 1) + rnd(s) % 3;
		for (int i = 0; i < gW->p[t].n; ++i)
		{
			gW->p[t].op[i] = rnd(s) % 14;
			gW->p[t].arg[i] = rnd(s) % 3;
		}
	}
	int t[3];
	for (int i = 1; i < nt; ++i)
		t[i] = mc_spawn(worker, (void*)(long)i, "w");
	worker((void*)0);
	for (int i = 1; i < nt; ++i)
		mc_join(t[i]);
	uint64_t h = 5;
	for (int i = 0; i < nt; ++i)
		h = h * 1000003 + gW->regs[i];
	h = h * 1000003 + gW->x[0].LoadRelaxed();
	h = h * 1000003 + gW->x[1].LoadRelaxed();
	h = h * 1000003 + gW->prot;
	h = h * 1000003 + gW->sig.Receive();
	mc_outcome("%llx", (unsigned long long)h);
	delete gW;
}
