// Free-running implementation of the harness API (used with ASan/UBSan, ThreadSanitizer or no
// instrumentation): real concurrency, randomised workloads and yields, same oracles.
#include "vrt.hpp"
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <new>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <sched.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
namespace {
struct ScS { uint64_t execs = 0, observed = 0; std::set<uint64_t> distinct; std::map<std::string, uint64_t> outcomes; };
std::mutex mu;
std::map<std::string, uint64_t> cov;
std::map<std::string, ScS> stats;
std::vector<std::string> samples;
vrt::scenario* all;
std::atomic<uint64_t> g_rng{1}, nobs{0}, nsteps{0};
std::atomic<uint64_t> g_hash{0};
std::string outc, desc;
std::vector<vrt::event> evs;
const vrt::scenario* cur;
uint64_t curidx;
std::atomic<int> ntid{0};
std::atomic<uint64_t> epoch{0};
thread_local int mytid = -1;
thread_local uint64_t mytid_epoch = ~0ull;
uint64_t mixs(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
uint64_t nextr() { return mixs(g_rng.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed)); }
}
namespace vrt {
scenario::scenario(const char* n, fn_t f, unsigned fl, unsigned w) : name(n), fn(f), flags(fl), weight(w), next(nullptr) { scenario** p = &all; while (*p) p = &(*p)->next; *p = this; }
uint32_t choose(uint32_t n) { if (n <= 1) return 0; uint32_t r = (uint32_t)((nextr() >> 11) % n); g_hash.store((g_hash.load(std::memory_order_relaxed) ^ (r * 31 + n)) * 0x100000001B3ull, std::memory_order_relaxed); return r; }
void fail(const char* fmt, ...) {
  char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  printf("VRTFAIL %s (scenario %s index %llu case %s)\n", b, cur ? cur->name : "?", (unsigned long long)curidx, desc.c_str()); fflush(stdout); _exit(77);
}
void outcome(const char* fmt, ...) { char b[200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); std::lock_guard l(mu); outc = b; }
void describe(const char* fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); std::lock_guard l(mu); if (desc.size() < 1000) desc += b; }
void cover(const char* l) { std::lock_guard g(mu); cov[l]++; }
void observed(uint64_t n) { nobs.fetch_add(n, std::memory_order_relaxed); }
int tid() { uint64_t e = epoch.load(std::memory_order_relaxed); if (mytid_epoch != e) { mytid_epoch = e; mytid = ntid.fetch_add(1, std::memory_order_relaxed); } return mytid; }
void point() { uint64_t r = nextr(); nsteps.fetch_add(1, std::memory_order_relaxed); if (r % 4 == 0) sched_yield(); else if (r % 64 == 1) std::this_thread::sleep_for(std::chrono::microseconds(r >> 8 & 63)); }
uint64_t steps() { return nsteps.load(); }
bool controlled() { return false; }
void log(uint32_t k, uint64_t a, uint64_t b, uint64_t c) { int t = tid(); std::lock_guard l(mu); evs.push_back({k, t, a, b, c}); nobs.fetch_add(1, std::memory_order_relaxed); }
size_t log_size() { std::lock_guard l(mu); return evs.size(); }
event log_at(size_t i) { std::lock_guard l(mu); return evs[i]; }
void quiet_begin() {}
void quiet_end() {}
static std::atomic<long> fail_at{0}, nalloc{0}, live{0}, liveb{0}; static std::atomic<bool> fired{false};
void fail_alloc(long n, bool) { fired = false; fail_at = n; }
bool alloc_failed() { return fired; }
long allocs() { return nalloc; }
long live_blocks() { return 0; }
long live_bytes() { return 0; }
void lifetime_end(void*, size_t) {}
void poison(void*, size_t) {}
}
static void jstr(FILE* f, const std::string& s) { fputc('"', f); for (char c : s) { if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if ((unsigned char)c < 32) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
int main(int argc, char** argv) {
  uint64_t seed = 1, execs = 100, budget = 60000; int shard = 0, nsh = 1; const char* filter = nullptr; const char* out = nullptr; long long one = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[++i], 0, 10); else if (a == "--execs") execs = strtoull(argv[++i], 0, 10);
    else if (a == "--shard") { shard = atoi(argv[++i]); nsh = atoi(argv[++i]); } else if (a == "--budget-ms") budget = strtoull(argv[++i], 0, 10);
    else if (a == "--scenario") filter = argv[++i]; else if (a == "--index") one = atoll(argv[++i]); else if (a == "--out") out = argv[++i];
    else if (a == "--list") { for (auto* s = all; s; s = s->next) printf("%s\n", s->name); return 0; } else return 2;
  }
  uint64_t wsum = 0; for (auto* s = all; s; s = s->next) if (!filter || !strcmp(filter, s->name)) wsum += s->weight;
  auto t0 = std::chrono::steady_clock::now();
  auto ms = [&] { return (uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); };
  std::map<std::string, uint64_t> skipped;
  std::vector<std::pair<vrt::scenario*, uint64_t>> plan; std::vector<uint64_t> cnt; uint64_t mx = 0;
  std::vector<vrt::scenario*> v; for (auto* s = all; s; s = s->next) if (!filter || !strcmp(filter, s->name)) { v.push_back(s); uint64_t n = execs * s->weight / (wsum ? wsum : 1); if (n < 8) n = 8; cnt.push_back(n); mx = n > mx ? n : mx; }
  for (uint64_t r = 0; r < mx; r++) for (size_t k = 0; k < v.size(); k++) if (r * cnt[k] / mx != (r + 1) * cnt[k] / mx) plan.push_back({v[k], r * cnt[k] / mx});
  for (size_t p = 0; p < plan.size(); p++) {
    auto [s, idx] = plan[p];
    if (one >= 0 ? (uint64_t)one != idx : (int)(idx % (uint64_t)nsh) != shard) continue;
    if (ms() > budget) { skipped[s->name]++; continue; }
    cur = s; curidx = idx; epoch++; ntid = 0; nobs = 0; g_hash = 1469598103934665603ull; outc.clear(); desc.clear(); evs.clear();
    uint64_t h = 1469598103934665603ull; for (const char* c = s->name; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ull;
    g_rng = mixs(seed * 0x9E3779B97F4A7C15ull ^ h ^ idx * 0xD1B54A32D192ED03ull);
    printf("VRTRUN %s %llu\n", s->name, (unsigned long long)idx); fflush(stdout);
    vrt::tid();
    if (s->flags & (vrt::F_TERMINATE | vrt::F_DAEMON | vrt::F_FORK)) {
      fflush(nullptr); int pid = fork();
      if (!pid) { if (s->flags & vrt::F_TERMINATE) { signal(SIGABRT, [](int) { _exit(0); }); } s->fn(); _exit(0); }
      int st; waitpid(pid, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (WIFSIGNALED(st)) { printf("VRTFAIL child of %s died with signal %d\n", s->name, WTERMSIG(st)); fflush(stdout); _exit(77); } _exit(WEXITSTATUS(st)); }
      nobs = 1;
    } else s->fn();
    auto& st = stats[s->name]; st.execs++; st.observed += nobs; st.distinct.insert(g_hash); if (!outc.empty() && (st.outcomes.size() < 48 || st.outcomes.count(outc))) st.outcomes[outc]++;
    if (samples.size() < 4 && idx % 5 == 1) samples.push_back(std::string(s->name) + " #" + std::to_string(idx) + ": " + desc + " outcome=" + outc);
  }
  FILE* f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"scenarios\":["); bool first = true;
  for (auto& [n, s] : stats) {
    fprintf(f, "%s{\"name\":", first ? "" : ","); first = false; jstr(f, n);
    fprintf(f, ",\"execs\":%llu,\"observed\":%llu,\"distinct\":%llu,\"skipped\":%llu,\"outcomes\":{", (unsigned long long)s.execs, (unsigned long long)s.observed, (unsigned long long)s.distinct.size(), (unsigned long long)skipped[n]);
    bool g = true; for (auto& [o, c] : s.outcomes) { if (!g) fputc(',', f); g = false; jstr(f, o); fprintf(f, ":%llu", (unsigned long long)c); }
    fprintf(f, "}}");
  }
  fprintf(f, "],\"coverage\":{"); first = true; for (auto& [l, c] : cov) { if (!first) fputc(',', f); first = false; jstr(f, l); fprintf(f, ":%llu", (unsigned long long)c); }
  fprintf(f, "},\"samples\":["); first = true; for (auto& s : samples) { if (!first) fputc(',', f); first = false; jstr(f, s); }
  fprintf(f, "]}\n"); if (f != stdout) fclose(f);
  fflush(nullptr);
  return 0;
}
