// vrt: controlled-execution monitoring runtime -- harness-side API.
// The same API is implemented by vrt.cpp (serialised threads, randomised schedules, weak-memory
// simulation, race/lifetime/leak/deadlock monitors) and by native.cpp (free-running threads for the
// ASan/UBSan builds).
#pragma once
#include <cstddef>
#include <cstdint>

#define VRT_NOINSTR __attribute__((no_sanitize("thread"), noinline))

namespace vrt {
enum : unsigned {
  F_NONE = 0,
  F_DAEMON = 1,      // threads may outlive the scenario: each execution runs in its own process
  F_NOLEAK = 2,      // do not check for leaked operator-new blocks
  F_NOSTALE = 4,     // never return stale values from atomic loads
  F_NOSPURIOUS = 8,  // no spurious condition-variable wakeups / weak-CAS failures
  F_SEQ = 16,        // single-threaded scenario (no staleness, counts inputs rather than schedules)
  F_TERMINATE = 32,  // std::terminate is the expected outcome (each execution in its own process)
  F_BIG = 64,        // allow many more steps
  F_FORK = 128,      // run every execution in its own process
};
using fn_t = void (*)();
struct scenario {
  const char* name;
  fn_t fn;
  unsigned flags;
  unsigned weight;   // relative number of executions
  scenario* next;
  scenario(const char* n, fn_t f, unsigned fl = 0, unsigned w = 10);
};

// deterministic random choice (drives workload shapes; part of the replay seed)
uint32_t choose(uint32_t n);           // uniform in [0,n)
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
inline bool chance(uint32_t pct) { return choose(100) < pct; }

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void outcome(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // label of this execution
void cover(const char* label);          // coverage counter (label must be a string literal)
void observed(uint64_t n = 1);          // number of events the oracle looked at
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // append to the case text
int tid();                              // small dense id of the calling thread
void point();                           // explicit scheduling point
uint64_t steps();
bool controlled();                      // true under vrt, false in native builds

// Appends to the execution's event log without creating any happens-before edge.
struct event { uint32_t kind; int32_t tid; uint64_t a, b, c; };
void log(uint32_t kind, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
size_t log_size();
event log_at(size_t i);

// Oracle sections: no scheduling, no staleness, no race checks, no allocation faults.
void quiet_begin();
void quiet_end();
struct quiet { quiet() { quiet_begin(); } ~quiet() { quiet_end(); } };

// allocation faults / accounting (operator new only, counted for the whole execution)
void fail_alloc(long nth, bool only_me = false);            // nth allocation from now throws bad_alloc (1 = next); 0 = off
bool alloc_failed();                    // did the armed fault fire?
long allocs();                          // operator new calls so far in this execution
long live_blocks();                     // live operator-new blocks allocated in this execution
long live_bytes();

// Declares that [p,p+n) is now dead (as if overwritten): unordered concurrent access is a race.
void lifetime_end(void* p, size_t n);
// memory p is poisoned: any later access is a violation
void poison(void* p, size_t n);

// A counter/word that monitors may use from any thread without creating synchronisation.
template <class T>
struct cell {
  T v{};
  VRT_NOINSTR T get() const noexcept { return v; }
  VRT_NOINSTR void set(T x) noexcept { v = x; }
  VRT_NOINSTR T inc(T d = 1) noexcept { return __atomic_add_fetch(&v, d, __ATOMIC_RELAXED); }
};
}  // namespace vrt

#define VRT_CAT2(a, b) a##b
#define VRT_CAT(a, b) VRT_CAT2(a, b)
#define VRT_SCENARIO_F(name, flags, weight)                                                  \
  static void VRT_CAT(sc_fn_, name)();                                                       \
  static ::vrt::scenario VRT_CAT(sc_reg_, name)(#name, &VRT_CAT(sc_fn_, name), flags, weight); \
  static void VRT_CAT(sc_fn_, name)()
#define VRT_SCENARIO(name) VRT_SCENARIO_F(name, ::vrt::F_NONE, 10)
#define VRT_CHECK(c, ...) do { if (!(c)) ::vrt::fail(__VA_ARGS__); } while (0)
