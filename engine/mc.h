// mcrt: harness-side API. The harness and the repository sources under test are compiled
// together into one shared object (clang, -fsanitize=thread instrumentation WITHOUT the tsan
// runtime) and loaded by the mcrun host, which owns every source of nondeterminism.
#pragma once
#include <stdint.h>
#include <stddef.h>

extern "C" {
// Free nondeterministic choice in [0, n): every alternative is explored.
int mc_choose(int n);
// Environment choice in [0, n): 0 is the default answer, the others cost one environment
// deviation (bounded by the scenario's D budget).
int mc_choose_dev(int n);
// Report a property violation and end the execution.
void mc_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
// Distinct outcome accounting (non-vacuity).
void mc_outcome(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Report a listed known finding (never a failure). Printed as KNOWN-FINDING by the driver.
void mc_known(const char* key);
// End this execution quietly: its future is covered by another execution.
void mc_discard(void) __attribute__((noreturn));
// Sequential state dedup: prunes the execution if a state with this hash was already reached
// with at least the given amount of remaining budget (depth).
void mc_state(uint64_t hash, int remaining);

typedef void (*mc_fn)(void*);
int mc_spawn(mc_fn fn, void* arg, const char* name);
void mc_join(int tid);
int mc_tid(void);
int mc_nthreads_alive(void);
// A visible step on the given address (scheduling point) without semantics.
void mc_point(void);
// Block until pred(arg) is true. The predicate must be a pure function of harness state.
void mc_wait_until(bool (*pred)(void*), void* arg);
// Between these calls the schedule is not branched (deterministic setup and teardown).
void mc_serial_begin(void);
void mc_serial_end(void);
// Blocks until no other thread can run without the time going on.
void mc_settle(void);
uint64_t mc_now_ns(void);
// With the parameter tick=N each reading of the clock may be an environment deviation: N ms have passed.
// The time right after the last such jump.
uint64_t mc_last_tick_ns(void);
void mc_set_now_ns(uint64_t ns);
// Number and bytes of live heap blocks (operator new), excluding thread-local storage.
uint64_t mc_live_blocks(void);
uint64_t mc_live_bytes(void);
void mc_dump_live(void);
uint64_t mc_alloc_bytes_total(void);
// Scenario parameters given on the command line (name=value).
long mc_param(const char* name, long def);
// Disable/enable scheduling (atomic harness sections) -- nestable.
void mc_atomic_begin(void);
void mc_atomic_end(void);
// Disable/enable happens-before race and heap checks for harness bookkeeping.
void mc_ignore_begin(void);
void mc_ignore_end(void);
// Log line shown on replay only.
void mc_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// HB-edges for harness-side bookkeeping (never used on repository state).
void mc_hb_release(void* addr);
void mc_hb_acquire(void* addr);
// Happens-before query: is everything done by the calling thread at the moment it called
// mc_stamp() visible (ordered before) in the current thread now?
uint64_t mc_stamp(void);
bool mc_ordered(uint64_t stamp);

typedef void (*mc_scenario_fn)(void);
void mc_register_scenario(const char* name, mc_scenario_fn fn);
}

struct McReg { McReg(const char* n, mc_scenario_fn f) { mc_register_scenario(n, f); } };
#define MC_SCENARIO(NAME) \
	static void mc_scn_##NAME(); \
	static McReg mc_reg_##NAME(#NAME, mc_scn_##NAME); \
	static void mc_scn_##NAME()

#define MC_CHECK(X) do { if (!(X)) mc_fail("check failed: %s (%s:%d)", #X, __FILE__, __LINE__); } while (0)
#define MC_CHECKF(X, ...) do { if (!(X)) mc_fail(__VA_ARGS__); } while (0)

struct McSerial { McSerial() { mc_serial_begin(); } ~McSerial() { mc_serial_end(); } };

// Harness-side atomic-free counters etc. should be guarded with this.
struct McIgnore { McIgnore() { mc_ignore_begin(); } ~McIgnore() { mc_ignore_end(); } };
