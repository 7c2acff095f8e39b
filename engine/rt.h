// Internal interface between the mcrt core and the simulated kernel.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include "mc.h"

namespace rt {

static const int MAXT = 14;
typedef uintptr_t uptr;

struct VC
{
	uint32_t c[MAXT];
	void clear() { memset(c, 0, sizeof(c)); }
	void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

// Simple malloc-based vector which never goes through operator new.
template <typename T>
struct Vec
{
	T* d; size_t n, cap;
	Vec() : d(nullptr), n(0), cap(0) {}
	void push(const T& v)
	{
		if (n == cap) { cap = cap ? cap * 2 : 16; d = (T*)realloc((void*)d, cap * sizeof(T)); }
		d[n++] = v;
	}
	T& operator[](size_t i) { return d[i]; }
	const T& operator[](size_t i) const { return d[i]; }
	void clear() { n = 0; }
	T pop() { return d[--n]; }
	void removeAt(size_t i) { memmove((void*)(d + i), (void*)(d + i + 1), (n - i - 1) * sizeof(T)); --n; }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
	uint64_t x = a * 0x9E3779B97F4A7C15ull + (b ^ 0xD6E8FEB86659FD93ull);
	x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 32;
	return x;
}

// Are we inside a model-checked fiber?
bool inFiber();
int curTid();
// Step on a synchronization object: a scheduling point, then order/hash bookkeeping.
// Call point() first, then one of the effect functions atomically.
void point(uptr addr, bool write = true);
void effRead(uptr addr, bool acquire);          // reads object's version
void effWrite(uptr addr, bool release, bool rmw); // changes object's version
void observe(uint64_t v);                       // fold a value into the thread's history
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void accRange(uptr a, size_t n, bool w, void* pc);
int choose(int n);
int chooseDev(int n);
uint64_t nowNs();
// Block current fiber until pred(arg) or the deadline (absolute virtual ns, UINT64_MAX = inf).
// Returns false on timeout. addr is the object whose change may enable the fiber.
bool blockUntil(bool (*pred)(void*), void* arg, uint64_t deadlineNs);
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool logging();
long param(const char* name, long def);
void hbRelease(VC& to);   // to |= cur clock (and advances cur clock)
void hbAcquire(const VC& from);
void spuriousHook();

// kern.cpp
void kernReset();

}
