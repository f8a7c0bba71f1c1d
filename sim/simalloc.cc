// Counts the live memory of the process, and says who asked for what is left.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <malloc.h>
volatile size_t liveBytes, liveBlocks, allocations;
static const size_t SLOTS = 1 << 16, DEPTH = 24;
struct Site { void *p; void *at[DEPTH]; int n; size_t order; };
static Site *s_sites;         // those which were allocated while recording and are live
static bool s_recording, s_tracking, s_busy;
extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}
static size_t slotOf(void *p) { return ((uintptr_t) p >> 4) * 0x9e3779b97f4a7c15ull >> 48; }
static void record(void *p)
{
  if (!s_recording || s_busy) return;
  s_busy = true;
  size_t i = slotOf(p), tries = 0;
  while (s_sites[i].p && s_sites[i].p != (void *) 1 && tries < SLOTS) { i = (i + 1) % SLOTS; ++tries; }
  if (tries < SLOTS) {
    s_sites[i].p = p;
    s_sites[i].n = backtrace(s_sites[i].at, DEPTH);
    s_sites[i].order = allocations;
  }
  s_busy = false;
}
static void forget(void *p)
{
  if (!s_tracking || s_busy) return;
  for (size_t i = slotOf(p), tries = 0; s_sites[i].p && tries < SLOTS; i = (i + 1) % SLOTS, ++tries)
    if (s_sites[i].p == p) { s_sites[i].p = (void *) 1; return; }
}
static void *counted(void *p)
{
  if (!p) return p;
  liveBytes = liveBytes + malloc_usable_size(p);
  liveBlocks = liveBlocks + 1;
  allocations = allocations + 1;
  record(p);
  return p;
}
static void uncount(void *p)
{
  if (!p) return;
  liveBytes = liveBytes - malloc_usable_size(p);
  liveBlocks = liveBlocks - 1;
  forget(p);
}
extern "C" {
void *malloc(size_t n) { return counted(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return counted(__libc_calloc(a, b)); }
void free(void *p) { uncount(p); __libc_free(p); }
void *realloc(void *p, size_t n)
{
  if (!p) return counted(__libc_malloc(n));
  if (!n) { free(p); return nullptr; }
  void *r = __libc_malloc(n);
  if (!r) return r;
  size_t old = malloc_usable_size(p);
  memcpy(r, p, old < n ? old : n);
  free(p);
  return counted(r);
}
void *memalign(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { *p = counted(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
}
void recordAllocations(bool on)
{
  if (on && !s_sites) { void *f[2]; backtrace(f, 2); s_sites = (Site *) __libc_calloc(SLOTS, sizeof(Site)); }
  s_recording = on;
  s_tracking = s_sites != nullptr;
}
// the code under test which asked for the first block which was allocated while recording and is left
std::string leftBy(size_t *kinds)
{
  s_recording = s_tracking = false;
  std::map<std::string, std::pair<size_t, size_t>> by; // blocks, first order
  for (size_t i = 0; s_sites && i < SLOTS; ++i) {
    Site &s = s_sites[i];
    if (!s.p || s.p == (void *) 1) continue;
    std::string w;
    unsigned k = 0;
    for (int j = 0; j < s.n && k < 4; ++j) {
      Dl_info d;
      if (!dladdr(s.at[j], &d) || !d.dli_sname) continue;
      int st = 0;
      char *dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
      std::string n = dm ? dm : d.dli_sname;
      free(dm);
      if (n.find("PLEXIL::") == std::string::npos && n.find("plexil") == std::string::npos) continue;
      if (n.compare(0, 8, "PLEXIL::") && n.compare(0, 6, "plexil")) continue; // (templates of the library)
      size_t c = n.find('(');
      w += (k++ ? " < " : "") + n.substr(0, c);
    }
    auto &b = by[w];
    ++b.first;
    if (!b.second || s.order < b.second) b.second = s.order;
  }
  *kinds = by.size();
  std::string r;
  size_t best = 0, order = 0;
  for (auto &b : by) if (!b.first.empty() && (!best || b.second.second < order)) { best = b.second.first; order = b.second.second; r = b.first; }
  return r;
}
