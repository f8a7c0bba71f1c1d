#include "runner.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <new>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <string>
#include <exception>
#include <stdexcept>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>

namespace sim {

static const uint32_t MAXCH = 1u << 19;
static const uint32_t MAXCOV = 1u << 14;
static const uint32_t MAXTRACE = 1u << 21;
static const int MAXCNT = 160;

enum Outcome { O_NONE = 0, O_OK, O_VIOLATION, O_INCONCLUSIVE };
struct Counter { char name[48]; uint64_t n; };
struct Shared {
  // request
  int mode;                    // 0 seed, 1 list
  uint64_t seed;
  uint32_t nin;
  int trace;
  int timeoutMs;
  // result
  volatile int outcome;
  char cls[256];
  char msg[6000];
  char where[200];
  uint64_t hash;
  uint64_t events;
  uint32_t nch;
  uint32_t ncov;
  int nontriv;
  double simsec;
  int ncnt;
  uint32_t ntrace;
  Counter cnt[MAXCNT];
  uint32_t ch[MAXCH];
  uint32_t in[MAXCH];
  uint64_t cov[MAXCOV];
  char tr[MAXTRACE];
};
static Shared *S;
const char *profile = "";
const char *prop = "";
static uint64_t s_rng[2];

static inline uint64_t splitmix(uint64_t &x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t x = a * 0x9ddfea08eb382d69ull ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
  return splitmix(x);
}
uint64_t hashStr(const char *s)
{
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (unsigned char) *s) * 1099511628211ull;
  return h;
}
uint64_t rnd()
{
  uint64_t s1 = s_rng[0], s0 = s_rng[1], r = s0 + s1;
  s_rng[0] = s0;
  s1 ^= s1 << 23;
  s_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
bool replaying() { return S->mode == 1; }

uint32_t raw(uint32_t v, uint32_t n)
{
  if (S->nch >= MAXCH) inconclusive("choice-log-full");
  if (S->mode == 1) {
    v = S->nch < S->nin ? S->in[S->nch] : 0;
    if (n && v >= n) v %= n;
  }
  S->ch[S->nch++] = v;
  return v;
}
uint32_t choose(uint32_t n)
{
  if (n <= 1) return 0;
  return raw((uint32_t) ((rnd() >> 11) % n), n);
}
bool chance(unsigned num, unsigned den)
{
  return raw((rnd() >> 11) % den < num ? 1 : 0, 2);
}
uint32_t weighted(std::initializer_list<unsigned> w)
{
  uint64_t t = 0;
  for (unsigned x : w) t += x;
  uint64_t v = (rnd() >> 11) % (t ? t : 1);
  uint32_t i = 0;
  for (unsigned x : w) { if (v < x) break; v -= x; ++i; }
  i = raw(i, (uint32_t) w.size());
  if (t && !w.begin()[i])    // (a choice list cut short or edited)
    for (i = 0; !w.begin()[i];) ++i;
  return i;
}
uint32_t geometric(unsigned mean, unsigned cap)
{
  uint32_t v = 0;
  while (v < cap && (rnd() >> 11) % (mean + 1) != 0) ++v;
  return raw(v, cap + 1);
}

bool tracing() { return S->trace; }
static void addTrace(const char *b, size_t n)
{
  if (!S->trace || S->ntrace + n + 2 > MAXTRACE) return;
  memcpy(S->tr + S->ntrace, b, n);
  S->ntrace += n;
  S->tr[S->ntrace++] = '\n';
}
void event(const char *fmt, ...)
{
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int) sizeof b) n = sizeof b - 1;
  S->hash = mix(S->hash, hashStr(b));
  ++S->events;
  addTrace(b, n);
}
void count(const char *name, uint64_t n)
{
  for (int i = 0; i < S->ncnt; ++i)
    if (!strcmp(S->cnt[i].name, name)) { S->cnt[i].n += n; return; }
  if (S->ncnt >= MAXCNT) return;
  Counter &c = S->cnt[S->ncnt++];
  snprintf(c.name, sizeof c.name, "%s", name);
  c.n = n;
}
void cover(uint64_t h) { if (S->ncov < MAXCOV) S->cov[S->ncov++] = h; }
void nontrivial() { S->nontriv = 1; }
void simtime(double s) { S->simsec += s; }
void trace(const std::string &t) { addTrace(t.data(), t.size()); }
void note(const char *w) { snprintf(S->where, sizeof S->where, "%s", w); }

static void leave(int o)
{
  S->outcome = o;
  _exit(0);
}
void violation(const std::string &cls, const std::string &msg)
{
  if (S->outcome == O_NONE) {
    snprintf(S->cls, sizeof S->cls, "%s", cls.c_str());
    snprintf(S->msg, sizeof S->msg, "%s", msg.c_str());
    event("VIOLATION %s: %s", S->cls, msg.substr(0, 800).c_str());
  }
  leave(O_VIOLATION);
  abort();
}
void inconclusive(const char *why)
{
  char b[80];
  snprintf(b, sizeof b, "inconclusive.%s", why);
  count(b);
  leave(O_INCONCLUSIVE);
  abort();
}
void finish() { leave(O_OK); abort(); }

// ---- child
// Freed objects are overwritten and kept out of reuse for a while, so that a
// use after deletion shows as a crash or as garbage rather than as luck.
static bool s_poison;
static const unsigned NQ = 4096;
static void *s_quar[NQ];
static unsigned s_qat;
bool quarantine = true;   // freed memory is kept back for a while
void poisonFree(void *p)
{
  if (!p) return;
  size_t n = s_poison ? malloc_usable_size(p) : 0;
  if (!s_poison || n > 65536) { free(p); return; }
  memset(p, 0xdd, n);
  if (!quarantine) { free(p); return; }
  void *old = s_quar[s_qat];
  s_quar[s_qat] = p;
  s_qat = (s_qat + 1) % NQ;
  if (old) free(old);
}
static void crash(int sig, siginfo_t *, void *)
{
  signal(sig, SIG_DFL);
  void *f[40];
  int n = backtrace(f, 40);
  size_t o = 0;
  snprintf(S->cls, sizeof S->cls, "crash-%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" :
           sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL");
  if (!S->msg[0]) o = snprintf(S->msg, sizeof S->msg, "process died");
  else o = strlen(S->msg);
  o += snprintf(S->msg + o, sizeof S->msg - o, " (phase %s) at", S->where);
  for (int i = 2; i < n && i < 16 && o + 220 < sizeof S->msg; ++i) {
    Dl_info d;
    if (dladdr(f[i], &d) && d.dli_sname) {
      int st = 0;
      char *dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
      o += snprintf(S->msg + o, sizeof S->msg - o, " < %.150s", dm ? dm : d.dli_sname);
    }
    else
      o += snprintf(S->msg + o, sizeof S->msg - o, " < %p", f[i]);
  }
  S->hash = mix(S->hash, sig);
  leave(O_VIOLATION);
}
static void onTerminate()
{
  std::exception_ptr e = std::current_exception();
  if (e) {
    try { std::rethrow_exception(e); }
    catch (std::exception const &x) { snprintf(S->msg, sizeof S->msg, "uncaught exception: %s", x.what()); }
    catch (...) { snprintf(S->msg, sizeof S->msg, "uncaught exception"); }
  }
  abort();
}
static char s_alt[65536];
static void (*s_world)();
static int s_keepStderr;

static void childMain()
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  sigset_t e;
  sigemptyset(&e);
  sigprocmask(SIG_SETMASK, &e, nullptr);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = s_alt;
  ss.ss_size = sizeof s_alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
#ifndef SIM_NO_CRASH_HANDLER
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL})
    sigaction(s, &sa, nullptr);
#endif
  std::set_terminate(onTerminate);
  mallopt(M_PERTURB, 0x5a);
  mallopt(M_ARENA_MAX, 1);
  struct rlimit rl = {3ull << 30, 3ull << 30};
#ifndef __SANITIZE_ADDRESS__
  setrlimit(RLIMIT_AS, &rl);
#endif
  uint64_t x = S->seed;
  s_rng[0] = splitmix(x);
  s_rng[1] = splitmix(x) | 1;
  s_poison = true;
  s_world();
  leave(O_OK);
}

// ---- zygote: forks one child per request; never allocates
static int s_req = -1, s_rep = -1; // supervisor side
static pid_t s_zyg;
static void zygote(int req, int rep)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  sigset_t m;
  sigemptyset(&m);
  sigaddset(&m, SIGCHLD);
  sigprocmask(SIG_BLOCK, &m, nullptr);
  for (;;) {
    char c;
    if (read(req, &c, 1) != 1) _exit(0);
    pid_t p = fork();
    if (p == 0) {
      close(req);
      close(rep);
      childMain();
    }
    struct timespec dl;
    clock_gettime(CLOCK_MONOTONIC, &dl);
    double end = dl.tv_sec + dl.tv_nsec * 1e-9 + S->timeoutMs * 1e-3;
    int st = 0;
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      clock_gettime(CLOCK_MONOTONIC, &dl);
      double left = end - (dl.tv_sec + dl.tv_nsec * 1e-9);
      if (left <= 0) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        if (S->outcome == O_NONE) {
          S->outcome = O_VIOLATION;
          snprintf(S->cls, sizeof S->cls, "hang");
          snprintf(S->msg, sizeof S->msg, "no progress within the wall-clock limit (phase %s)", S->where);
          S->hash = 0;
        }
        break;
      }
      struct timespec ts = {(time_t) left, (long) ((left - (time_t) left) * 1e9)};
      sigtimedwait(&m, nullptr, &ts);
    }
    if (S->outcome == O_NONE) {
      S->outcome = O_VIOLATION;
      snprintf(S->cls, sizeof S->cls, "crash-status-%x", st);
      snprintf(S->msg, sizeof S->msg, "process ended with status %x (phase %s)", st, S->where);
    }
    if (write(rep, &c, 1) != 1) _exit(0);
  }
}

struct Result { int outcome; std::string cls, msg; uint64_t hash; std::vector<uint32_t> ch; };

static void request(int mode, uint64_t seed, std::vector<uint32_t> const *in, bool trace, int timeoutMs)
{
  S->mode = mode;
  S->seed = seed;
  S->nin = 0;
  if (in) {
    S->nin = in->size() < MAXCH ? in->size() : MAXCH;
    memcpy(S->in, in->data(), S->nin * sizeof(uint32_t));
  }
  S->trace = trace;
  S->timeoutMs = timeoutMs;
  S->outcome = O_NONE;
  S->cls[0] = S->msg[0] = S->where[0] = 0;
  S->hash = 88172645463325252ull;
  S->events = 0;
  S->nch = S->ncov = 0;
  S->nontriv = 0;
  S->simsec = 0;
  S->ncnt = 0;
  S->ntrace = 0;
  char c = 'x';
  if (write(s_req, &c, 1) != 1 || read(s_rep, &c, 1) != 1) {
    fprintf(stderr, "zygote lost\n");
    exit(3);
  }
}
static Result result(bool choices)
{
  Result r;
  r.outcome = S->outcome;
  r.cls = S->cls;
  r.msg = S->msg;
  r.hash = S->hash;
  if (choices) r.ch.assign(S->ch, S->ch + S->nch);
  return r;
}
static double now()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string jesc(std::string const &s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

static const int TMO = 20000;

static std::vector<uint32_t> shrink(std::vector<uint32_t> cur, std::string const &cls, double budget, unsigned &tries)
{
  double end = now() + budget;
  tries = 0;
  auto ok = [&](std::vector<uint32_t> const &c) -> bool {
    ++tries;
    request(1, 0, &c, false, cls == "hang" ? 4000 : TMO);
    return S->outcome == O_VIOLATION && cls == S->cls;
  };
  // what was really consumed
  auto trimZeros = [](std::vector<uint32_t> &v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
  trimZeros(cur);
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // shorter tails
    for (size_t cut = cur.size() / 2; cut >= 1 && now() < end; ) {
      if (cut > cur.size()) { cut /= 2; continue; }
      std::vector<uint32_t> c(cur.begin(), cur.end() - cut);
      if (ok(c)) { trimZeros(c); cur = c; progress = true; }
      else cut /= 2;
    }
    // delete or zero blocks
    for (size_t sz = cur.size() / 2; sz >= 1 && now() < end; sz /= 2) {
      for (size_t i = 0; i + sz <= cur.size() && now() < end; ) {
        std::vector<uint32_t> c(cur);
        c.erase(c.begin() + i, c.begin() + i + sz);
        if (ok(c)) { trimZeros(c); cur = c; progress = true; continue; }
        bool nz = false;
        c = cur;
        for (size_t j = i; j < i + sz; ++j) { nz |= c[j] != 0; c[j] = 0; }
        if (nz && now() < end && ok(c)) { trimZeros(c); cur = c; progress = true; }
        i += sz;
      }
    }
    for (size_t i = 0; i < cur.size() && now() < end; ++i) {
      while (i < cur.size() && cur[i] > 0 && now() < end) {
        std::vector<uint32_t> c(cur);
        c[i] = cur[i] / 2;
        if (ok(c)) { trimZeros(c); cur = c; progress = true; continue; }
        if (cur[i] > 1) {
          c = cur;
          c[i] = cur[i] - 1;
          if (ok(c)) { cur = c; progress = true; continue; }
        }
        break;
      }
    }
  }
  return cur;
}

static std::vector<uint32_t> readReplay(const char *f)
{
  std::ifstream is(f);
  std::stringstream ss;
  ss << is.rdbuf();
  std::string t = ss.str();
  std::vector<uint32_t> v;
  size_t p = t.find("\"choices\"");
  if (p == std::string::npos) { fprintf(stderr, "no choices in %s\n", f); exit(3); }
  p = t.find('[', p);
  const char *c = t.c_str() + p + 1;
  while (*c && *c != ']') {
    char *e;
    unsigned long x = strtoul(c, &e, 10);
    if (e == c) { ++c; continue; }
    v.push_back(x);
    c = e;
  }
  return v;
}

static const char *argStr(int argc, char **argv, const char *n, const char *d)
{
  for (int i = 1; i + 1 < argc; ++i)
    if (!strcmp(argv[i], n)) return argv[i + 1];
  return d;
}
static bool argFlag(int argc, char **argv, const char *n)
{
  for (int i = 1; i < argc; ++i)
    if (!strcmp(argv[i], n)) return true;
  return false;
}

int runnerMain(int argc, char **argv, const char *worldName, void (*world)())
{
  int pers = personality(0xffffffff);
  if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_PERS")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("SIM_NO_PERS", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  // heap layout must not depend on the arguments or the environment
  signal(SIGPIPE, SIG_IGN);
  S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) return 3;
  s_world = world;
  prop = argStr(argc, argv, "--prop", "");
  profile = argStr(argc, argv, "--profile", prop);
  static std::string fileProfile;
  if (const char *rp = argStr(argc, argv, "--replay", nullptr)) {
    std::ifstream is(rp);
    std::string t((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    size_t i = t.find("\"profile\": \"");
    if (i != std::string::npos && !argStr(argc, argv, "--profile", nullptr)) {
      i += 12;
      fileProfile = t.substr(i, t.find('"', i) - i);
      profile = fileProfile.c_str();
    }
  }
  std::set<std::string> need; // a run counts as non-trivial if one of these was counted
  if (const char *nd = argStr(argc, argv, "--need", nullptr)) {
    std::istringstream is(nd);
    std::string l;
    while (std::getline(is, l, ',')) need.insert(l);
  }
  s_keepStderr = argFlag(argc, argv, "--stderr");
  void *bt[2];
  backtrace(bt, 2); // loads libgcc before the fork
  int a[2], b[2];
  if (pipe(a) || pipe(b)) return 3;
  int dn = open("/dev/null", O_RDWR);
  fflush(nullptr);
  s_zyg = fork();
  if (s_zyg == 0) {
    close(a[1]);
    close(b[0]);
    if (!s_keepStderr) dup2(dn, 2);
    dup2(dn, 1);
    dup2(dn, 0);
    zygote(a[0], b[1]);
    _exit(0);
  }
  close(a[0]);
  close(b[1]);
  s_req = a[1];
  s_rep = b[0];

  const char *rf = argStr(argc, argv, "--replay", nullptr);
  if (rf) {
    std::vector<uint32_t> v = readReplay(rf);
    request(1, 0, &v, true, TMO);
    Result r = result(false);
    fwrite(S->tr, 1, S->ntrace, stdout);
    if (r.outcome == O_VIOLATION)
      printf("REPLAY violation class=%s hash=%016llx\n  %s\n", r.cls.c_str(), (unsigned long long) r.hash, r.msg.c_str());
    else
      printf("REPLAY outcome=%s hash=%016llx\n", r.outcome == O_OK ? "ok" : "inconclusive", (unsigned long long) r.hash);
    for (int i = 0; i < S->ncnt && argFlag(argc, argv, "--counts"); ++i)
      printf("  %s=%llu\n", S->cnt[i].name, (unsigned long long) S->cnt[i].n);
    return r.outcome == O_VIOLATION ? 1 : 0;
  }
  uint64_t seed = strtoull(argStr(argc, argv, "--seed", "1"), nullptr, 0);
  uint64_t start = strtoull(argStr(argc, argv, "--start", "0"), nullptr, 0);
  uint64_t stride = strtoull(argStr(argc, argv, "--stride", "1"), nullptr, 0);
  uint64_t maxRuns = strtoull(argStr(argc, argv, "--max", "1000000000"), nullptr, 0);
  double budget = atof(argStr(argc, argv, "--time", "10"));
  double shrinkBudget = atof(argStr(argc, argv, "--shrink", "15"));
  unsigned detEvery = atoi(argStr(argc, argv, "--det", "40"));
  const char *one = argStr(argc, argv, "--one", nullptr);
  auto runSeed = [&](uint64_t i) { return mix(mix(seed, mix(hashStr(prop), hashStr(profile))), i); };
  if (one) { // trace a single run of the sweep
    request(0, runSeed(strtoull(one, nullptr, 0)), nullptr, true, TMO);
    Result r = result(false);
    fwrite(S->tr, 1, S->ntrace, stdout);
    printf("outcome=%d class=%s hash=%016llx choices=%u\n  %s\n", r.outcome, r.cls.c_str(), (unsigned long long) r.hash, S->nch, r.msg.c_str());
    for (int i = 0; i < S->ncnt; ++i)
      printf("  %s=%llu\n", S->cnt[i].name, (unsigned long long) S->cnt[i].n);
    return r.outcome == O_VIOLATION;
  }
  std::set<std::string> known;
  if (const char *kf = argStr(argc, argv, "--known", nullptr)) {
    std::ifstream is(kf);
    std::string l;
    while (std::getline(is, l)) known.insert(l);
  }
  const char *rdir = argStr(argc, argv, "--replaydir", "/tmp");
  double t0 = now();
  uint64_t runs = 0, ok = 0, inc = 0, nontriv = 0, events = 0, det = 0, detBad = 0, unrepro = 0, maxch = 0;
  double simsec = 0;
  std::map<std::string, uint64_t> counters, knownHits;
  std::unordered_set<uint64_t> cov, hist;
  std::string vfile, vcls, vmsg, detSeeds, unreproMsg;
  bool first = true;
  for (uint64_t i = start; runs < maxRuns && now() - t0 < budget; i += stride) {
    uint64_t sd = runSeed(i);
    request(0, sd, nullptr, false, TMO);
    ++runs;
    events += S->events;
    simsec += S->simsec;
    if (S->nch > maxch) maxch = S->nch;
    if (S->outcome == O_INCONCLUSIVE) ++inc;
    if (S->outcome == O_OK) ++ok;
    bool nt = S->nontriv;
    if (!need.empty()) {
      nt = false;
      for (int k = 0; k < S->ncnt; ++k) nt = nt || (S->cnt[k].n && need.count(S->cnt[k].name));
    }
    if (nt && hist.insert(S->hash).second) ++nontriv;
    for (uint32_t k = 0; k < S->ncov; ++k)
      if (cov.size() < 3000000) cov.insert(S->cov[k]);
    for (int k = 0; k < S->ncnt; ++k)
      counters[S->cnt[k].name] += S->cnt[k].n;
    Result r = result(S->outcome == O_VIOLATION);
    if (r.outcome != O_VIOLATION) {
      if (detEvery && runs % detEvery == 1) {
        request(0, sd, nullptr, false, TMO);
        ++det;
        if (S->hash != r.hash || S->outcome != r.outcome) {
          ++detBad;
          detSeeds += std::to_string(i) + " ";
        }
      }
      continue;
    }
    if (known.count(r.cls)) { ++knownHits[r.cls]; continue; }
    // gate: the same seed, and the recorded choices, must both reproduce it
    request(0, sd, nullptr, false, TMO);
    Result r2 = result(false);
    bool same = r2.outcome == O_VIOLATION && r2.cls == r.cls && (r2.hash == r.hash || r.cls == "hang");
    request(1, 0, &r.ch, false, TMO);
    bool same2 = S->outcome == O_VIOLATION && r.cls == S->cls;
    if (!same || !same2) {
      ++unrepro;
      unreproMsg = "run " + std::to_string(i) + ": " + r.cls + ": " + r.msg + " / " + r2.cls + " / " + S->cls;
      continue;
    }
    unsigned tries = 0;
    std::vector<uint32_t> m = shrink(r.ch, r.cls, shrinkBudget, tries);
    request(1, 0, &m, true, TMO);
    if (S->outcome != O_VIOLATION || r.cls != S->cls) { ++unrepro; continue; }
    vcls = r.cls;
    vmsg = S->msg;
    vfile = std::string(rdir) + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".json";
    FILE *f = fopen(vfile.c_str(), "w");
    if (!f) { perror(vfile.c_str()); return 3; }
    fprintf(f, "{\"world\": \"%s\", \"property\": \"%s\", \"profile\": \"%s\", \"seed\": %llu, \"run\": %llu,\n"
            " \"class\": \"%s\",\n \"message\": \"%s\",\n \"original_choices\": %zu, \"shrink_runs\": %u,\n \"choices\": [",
            worldName, prop, profile, (unsigned long long) seed, (unsigned long long) i, jesc(vcls).c_str(),
            jesc(vmsg).c_str(), r.ch.size(), tries);
    for (size_t k = 0; k < m.size(); ++k) fprintf(f, "%s%u", k ? "," : "", m[k]);
    fprintf(f, "],\n \"trace\": [\n");
    std::string t(S->tr, S->ntrace);
    std::istringstream ts(t);
    std::string l;
    bool c1 = true;
    while (std::getline(ts, l)) { fprintf(f, "%s  \"%s\"", c1 ? "" : ",\n", jesc(l).c_str()); c1 = false; }
    fprintf(f, "\n ]}\n");
    fclose(f);
    break;
  }
  const char *out = argStr(argc, argv, "--out", nullptr);
  FILE *f = out ? fopen(out, "w") : stdout;
  if (!f) return 3;
  fprintf(f, "{\"runs\": %llu, \"ok\": %llu, \"inconclusive\": %llu, \"nontrivial\": %llu, \"events\": %llu, \"simsec\": %.3f,\n"
          "\"det\": %llu, \"det_bad\": %llu, \"det_seeds\": \"%s\", \"unrepro\": %llu, \"unrepro_msg\": \"%s\", \"wall\": %.2f, \"max_choices\": %llu,\n",
          (unsigned long long) runs, (unsigned long long) ok, (unsigned long long) inc, (unsigned long long) nontriv,
          (unsigned long long) events, simsec, (unsigned long long) det, (unsigned long long) detBad, detSeeds.c_str(),
          (unsigned long long) unrepro, jesc(unreproMsg).c_str(), now() - t0, (unsigned long long) maxch);
  fprintf(f, "\"counters\": {");
  for (auto &c : counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", c.first.c_str(), (unsigned long long) c.second); first = false; }
  fprintf(f, "},\n\"known\": {");
  first = true;
  for (auto &c : knownHits) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(c.first).c_str(), (unsigned long long) c.second); first = false; }
  fprintf(f, "},\n\"violation\": %s%s%s, \"class\": \"%s\", \"message\": \"%s\"}\n",
          vfile.empty() ? "null" : "\"", vfile.c_str(), vfile.empty() ? "" : "\"", jesc(vcls).c_str(), jesc(vmsg).c_str());
  if (out) fclose(f);
  if (const char *cf = argStr(argc, argv, "--covout", nullptr)) {
    FILE *g = fopen(cf, "wb");
    if (g) {
      for (uint64_t h : cov) fwrite(&h, 8, 1, g);
      fclose(g);
    }
    std::string hf = std::string(cf) + ".hist";
    g = fopen(hf.c_str(), "wb");
    if (g) {
      for (uint64_t h : hist) fwrite(&h, 8, 1, g);
      fclose(g);
    }
  }
  kill(s_zyg, SIGKILL);
  return vfile.empty() ? 0 : 1;
}
}

#ifndef __SANITIZE_ADDRESS__
void operator delete(void *p) noexcept { sim::poisonFree(p); }
void operator delete[](void *p) noexcept { sim::poisonFree(p); }
void operator delete(void *p, size_t) noexcept { sim::poisonFree(p); }
void operator delete[](void *p, size_t) noexcept { sim::poisonFree(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { sim::poisonFree(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { sim::poisonFree(p); }
#endif
