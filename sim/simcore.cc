#include "simcore.hh"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <map>
#include <set>
#include <vector>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {
Params params;
unsigned failThreads, failTimers;
uint64_t switches, preempts;

struct Thread {
  int id = 0;
  std::string name;
  pthread_t real = 0;
  std::atomic<int> go{0};
  enum { RUN, BLOCKED, IDLE, DONE } st = RUN;
  std::function<bool()> ready;
  nanos deadline = NEVER;
  bool intr = false;
  const char *what = "";
  nanos idleUntil = 0;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  bool joined = false, detached = false;
  std::function<void()> body;
  uint64_t mask = 0, pend = 0, shared = 0, sigwaits = 0; // shared: pending signals meant for the process
  bool inHandler = false;
  char *lo = nullptr, *hi = nullptr; // its stack
};
static bool s_active;
static bool s_in;                     // inside the scheduler or an oracle
static int s_quiet;
static std::vector<Thread *> T;
static __thread Thread *me;
static nanos s_now;
static int64_t s_wall;
struct Ev { nanos t; uint64_t seq; std::function<void()> f; };
static std::multimap<std::pair<nanos, uint64_t>, std::function<void()>> s_ev;
static uint64_t s_evSeq;
static uint32_t s_gap;                // ticks to the next preemption, 0: none
static bool s_gapNone = true;
static uint32_t s_stall;
static uint64_t s_syncs, s_limit = 400000, s_solo;
static std::function<void(std::string const &)> s_deadlock;
static uint64_t s_procPend, s_schedHash;
static struct sigaction s_act[65];

static void futexWait(std::atomic<int> *a, int v) { syscall(SYS_futex, (int *) a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futexWake(std::atomic<int> *a) { syscall(SYS_futex, (int *) a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void park(Thread *t)
{
  while (!t->go.load(std::memory_order_acquire)) futexWait(&t->go, 0);
  t->go.store(0, std::memory_order_relaxed);
}
static void hand(Thread *t)
{
  t->go.store(1, std::memory_order_release);
  futexWake(&t->go);
}
uint64_t scheduleHash() { return s_schedHash; }
bool active() { return s_active; }
int self() { return me ? me->id : -1; }
nanos now() { return s_now; }
nanos wallOffset() { return s_wall; }
void at(nanos t, std::function<void()> f) { s_ev.insert(std::make_pair(std::make_pair(t, s_evSeq++), f)); }
void after(nanos d, std::function<void()> f) { at(s_now + d, f); }
bool pendingEvents() { return !s_ev.empty(); }
void noPreempt(bool on) { s_quiet += on ? 1 : -1; }
void nameThread(std::string const &n) { me->name = n; }
bool threadDone(int id) { return T[id]->st == Thread::DONE; }
int threadCount() { return T.size(); }
void onDeadlock(std::function<void(std::string const &)> f) { s_deadlock = f; }
void progressLimit(uint64_t n) { s_limit = n; }

std::string threadDump()
{
  std::string s;
  for (Thread *t : T) {
    if (t->st == Thread::DONE) continue;
    s += (s.empty() ? "" : ", ") + t->name + (t->st == Thread::RUN ? " running" : t->st == Thread::IDLE ? " idle" : std::string(" waiting for ") + t->what);
    if (t->pend) { char b[60]; snprintf(b, sizeof b, " (pending signals %llx, blocked %llx)", (unsigned long long) t->pend, (unsigned long long) t->mask); s += b; }
  }
  if (s_procPend) { char b[60]; snprintf(b, sizeof b, "; process: pending signals %llx", (unsigned long long) s_procPend); s += b; }
  return s;
}
static void drawGap()
{
  s_gapNone = true;
  s_gap = 0;
  uint64_t r = rnd();
  uint32_t v = 0;
  if (params.memPreempt) {
    switch (r % 8) {
    case 0: v = 0; break;
    case 1: v = 1 + (r >> 8) % 8; break;
    case 2: case 3: v = 1 + (r >> 8) % 60; break;
    case 4: case 5: v = 1 + (r >> 8) % 500; break;
    default: v = 1 + (r >> 8) % 4000;
    }
  }
  else v = r % 4 ? 25 * (1 + (r >> 8) % ((r & 0x80) ? 8 : 40)) : 0;
  v = raw(v, 0);
  if (v) { s_gap = v; s_gapNone = false; }
}
static void fire()
{
  while (!s_ev.empty() && s_ev.begin()->first.first <= s_now) {
    auto f = s_ev.begin()->second;
    s_ev.erase(s_ev.begin());
    f();
  }
}
static uint64_t deliverable(Thread *t) { return t->pend & ~t->mask; }
static bool canRun(Thread *t)
{
  switch (t->st) {
  case Thread::RUN: return true;
  case Thread::BLOCKED:
    return (t->ready && t->ready()) || t->deadline <= s_now || deliverable(t);
  case Thread::IDLE: return deliverable(t);
  default: return false;
  }
}
// Chooses the next thread. except: the one being preempted.
static Thread *pick(Thread *except)
{
  for (;;) {
    std::vector<Thread *> r;
    for (Thread *t : T) if (t != except && canRun(t)) r.push_back(t);
    if (!r.empty()) return r[choose(r.size())];
    if (except && canRun(except)) return except;
    // nobody: an idle waiter whose time has come, else time goes on
    nanos next = NEVER;
    if (!s_ev.empty()) next = s_ev.begin()->first.first;
    for (Thread *t : T) if (t->st == Thread::BLOCKED && t->deadline < next) next = t->deadline;
    for (Thread *t : T)
      if (t->st == Thread::IDLE && (t->idleUntil <= s_now || next > t->idleUntil)) {
        if (t->idleUntil > s_now && t->idleUntil != NEVER) s_now = t->idleUntil;
        return t;
      }
    if (next == NEVER) {
      std::string d = threadDump();
      if (s_deadlock) s_deadlock(d);
      violation("deadlock", "no thread can ever run again: " + d);
    }
    if (next > s_now) s_now = next;
    fire();
  }
}
static void runHandlers(Thread *t)
{
  if (t->inHandler) return;
  uint64_t d;
  while ((d = deliverable(t))) {
    int sig = __builtin_ctzll(d) + 1;
    t->pend &= ~(1ull << (sig - 1));
    t->shared &= ~(1ull << (sig - 1));
    struct sigaction &a = s_act[sig];
    if (a.sa_handler == SIG_IGN) continue;
    if (a.sa_handler == SIG_DFL) {
      if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH) continue;
      violation("killed-by-signal", std::string("a signal with no handler (") + strsignal(sig) + ") would have killed the process; thread " + t->name);
    }
    event("signal %d on thread %s", sig, t->name.c_str());
    uint64_t om = t->mask;
    uint64_t am = 0;
    for (int i = 1; i < 64; ++i) if (sigismember(&a.sa_mask, i)) am |= 1ull << (i - 1);
    t->mask |= am | (1ull << (sig - 1));
    struct Restore {
      Thread *t;
      uint64_t m;
      ~Restore()
      {
        t->mask = m;
        // what was held back for the process while the handler ran
        uint64_t d = s_procPend & ~m;
        t->pend |= d;
        t->shared |= d;
        s_procPend &= ~d;
      }
    } rs{t, om};
    if (a.sa_flags & SA_SIGINFO) {
      siginfo_t si;
      memset(&si, 0, sizeof si);
      si.si_signo = sig;
      a.sa_sigaction(sig, &si, nullptr);
    }
    else a.sa_handler(sig);
  }
}
static void switchTo(Thread *n)
{
  if (n == me) return;
  Thread *m = me;
  ++switches;
  s_schedHash = mix(s_schedHash, n->id);
  if (params.dumpSched) trace("-> " + n->name);
  hand(n);
  park(m);
}
// the current thread cannot go on
static void blockHere()
{
  Thread *n = pick(nullptr);
  if (s_gapNone) drawGap();
  s_solo = 0;
  switchTo(n);
}
static bool others(Thread *m)
{
  for (Thread *t : T) if (t != m && canRun(t)) return true;
  return false;
}
static void preemptNow()
{
  s_in = true;
  s_solo = 0;
  if (others(me)) {
    ++preempts;
    Thread *n = pick(me);
    drawGap();
    switchTo(n);
  }
  else drawGap();
  s_in = false;
  runHandlers(me);
}
static void syncPoint()
{
  if (!s_active || s_in || s_quiet) return;
  s_now += US;
  if (++s_syncs > s_limit) {
    count("probe.no_progress");
    violation("livelock", "the program keeps running without end: " + threadDump());
  }
  s_in = true;
  if (params.stallMean) {
    if (!s_stall) s_stall = raw(1 + rnd() % (2 * params.stallMean), 0);
    if (s_stall && --s_stall == 0) {
      nanos d = (nanos) choose(64) * params.stallMax / 63;
      s_now += d;
      count("fault.stall");
    }
    else if (!s_stall) { }
  }
  fire();
  s_in = false;
  bool forced = ++s_solo > 1500;
  if (!s_gapNone) { if (s_gap <= 25) s_gap = 0; else s_gap -= 25; }
  if ((!s_gapNone && !s_gap) || forced) preemptNow();
  else runHandlers(me);
}
static inline void memPoint(void *p)
{
  if (!s_active || s_in || s_quiet || s_gapNone) return;
  if ((char *) p >= me->lo && (char *) p < me->hi) return;
  if (--s_gap == 0) preemptNow();
}
void yield() { syncPoint(); }

int waitUntil(const char *what, std::function<bool()> ready, nanos deadline, bool intr)
{
  syncPoint();
  s_in = true;
  int res = 0;
  while (!ready()) {
    if (deliverable(me)) {
      s_in = false;
      runHandlers(me);
      if (intr) return EINTR;
      s_in = true;
      continue;
    }
    if (deadline <= s_now) { res = ETIMEDOUT; break; }
    me->st = Thread::BLOCKED;
    me->ready = ready;
    me->deadline = deadline;
    me->intr = intr;
    me->what = what;
    blockHere();
    me->st = Thread::RUN;
    me->ready = nullptr;
    me->deadline = NEVER;
    me->intr = false;
  }
  s_in = false;
  return res;
}
void sleepFor(nanos d) { waitUntil("sleep", [] { return false; }, s_now + d); }
void waitIdle(nanos until)
{
  s_in = true;
  for (;;) {
    me->st = Thread::IDLE;
    me->idleUntil = until;
    me->what = "idle";
    if (s_gapNone) drawGap();
    Thread *n = pick(nullptr);
    switchTo(n);
    me->st = Thread::RUN;
    if (!deliverable(me)) break;
    s_in = false;
    runHandlers(me);
    s_in = true;
  }
  s_in = false;
}
void raiseProcess(int sig);
static void *trampoline(void *p)
{
  Thread *t = (Thread *) p;
  me = t;
  char here;
  t->hi = &here + 4096;
  t->lo = &here - (7 << 20);
  park(t);
  s_in = false;
  runHandlers(t);
  if (t->body) t->body();
  else t->ret = t->fn(t->arg);
  s_in = true;
  t->st = Thread::DONE;
  // a signal for the process which this thread did not get to handle stays with the process
  for (uint64_t d = t->pend & t->shared; d; d &= d - 1) raiseProcess(__builtin_ctzll(d) + 1);
  Thread *n = pick(nullptr);
  if (s_gapNone) drawGap();
  s_solo = 0;
  ++switches;
  hand(n);
  for (;;) pause();
  return nullptr;
}
static int (*realCreate)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static Thread *newThread(std::string const &name)
{
  Thread *t = new Thread;
  t->id = T.size();
  t->name = name.empty() ? "thread" + std::to_string(t->id) : name;
  t->mask = me ? me->mask : 0;
  T.push_back(t);
  if (T.size() > 400) inconclusive("too many threads");
  return t;
}
static void launch(Thread *t)
{
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 1 << 20);
  t->lo = nullptr;
  if (realCreate(&t->real, &a, trampoline, t)) inconclusive("thread creation failed");
}
void spawn(std::string const &name, std::function<void()> f)
{
  Thread *t = newThread(name);
  t->body = f;
  launch(t);
}
static void (*realFns)();
void start()
{
  realCreate = (decltype(realCreate)) dlsym(RTLD_NEXT, "pthread_create");
  Thread *t = newThread("main");
  t->real = pthread_self();
  char here;
  t->hi = &here + (1 << 20);
  t->lo = &here - (7 << 20);
  me = t;
  s_now = 1000 * SEC;
  s_wall = 1700000000ull * SEC - s_now;
  s_active = true;
  drawGap();
}
void raiseProcess(int sig)
{
  // taken by a thread which waits for it, else delivered to any which does not block it, else left pending for sigwait
  std::vector<Thread *> c;
  for (Thread *t : T) if (t->st != Thread::DONE && (t->sigwaits & (1ull << (sig - 1)))) { s_procPend |= 1ull << (sig - 1); return; }
  for (Thread *t : T) if (t->st != Thread::DONE && !(t->mask & (1ull << (sig - 1)))) c.push_back(t);
  if (c.empty()) s_procPend |= 1ull << (sig - 1);
  else {
    Thread *t = c[choose(c.size())];
    t->pend |= 1ull << (sig - 1);
    t->shared |= 1ull << (sig - 1);
  }
}
// ---- mutexes etc.: state kept by address
struct Mtx { Thread *owner = nullptr; unsigned n = 0; };
struct Cond { uint64_t seq = 0; std::deque<uint64_t> waiters; };
static std::map<void *, Mtx> s_mtx;
static std::map<void *, long> s_sem;
struct CondSt { std::vector<std::pair<int, bool *>> w; };
static std::map<void *, CondSt> s_cond;
struct PosixTimer { bool live = true; bool thread = false; int sig = 0; void (*fn)(union sigval) = nullptr; union sigval val; nanos next = NEVER, iv = 0; bool wall = true, absWall = false; int64_t wallAt = 0; uint64_t gen = 0; };
static std::map<long, PosixTimer *> s_timers;
static long s_timerId = 1;
static PosixTimer s_itimer;

static nanos late() { return params.timerLate ? (nanos) choose(8) * params.timerLate / 7 : 0; }
static void armTimer(PosixTimer *t)
{
  uint64_t g = ++t->gen;
  if (t->next == NEVER) return;
  at((t->next > s_now ? t->next : s_now) + late(), [t, g] {
    if (t->gen != g || !t->live) return;
    if (t->iv) { t->next = t->next + t->iv > s_now ? t->next + t->iv : s_now + t->iv; }
    else t->next = NEVER;
    count("env.timer_expired");
    event("timer expires");
    if (t->thread) { auto fn = t->fn; auto v = t->val; static int k; spawn("timer" + std::to_string(++k), [fn, v] { fn(v); }); }
    else raiseProcess(t->sig);
    if (t->iv) armTimer(t);
  });
}
void jumpClock(int64_t d)
{
  s_wall += d;
  event("clock set by %lld us", (long long) (d / 1000));
  count("fault.clock_jump");
  for (auto &p : s_timers) {
    PosixTimer *t = p.second;
    if (!t->live || !t->absWall || t->next == NEVER) continue;
    int64_t n = t->wallAt - s_wall;
    t->next = n < 0 ? 0 : n;
    armTimer(t);
  }
}
} // namespace sim
using namespace sim;
#define REAL(f) static auto real = (decltype(&f)) dlsym(RTLD_NEXT, #f)
#define OUT(f, ...) do { REAL(f); return real(__VA_ARGS__); } while (0)

extern "C" {
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
  if (!s_active) OUT(pthread_create, p, a, f, arg);
  if (failThreads) { --failThreads; count("fault.thread_create"); return EAGAIN; }
  s_in = true;
  Thread *t = newThread("");
  t->fn = f;
  t->arg = arg;
  launch(t);
  *p = t->real;
  s_in = false;
  syncPoint();
  return 0;
}
static Thread *byReal(pthread_t p) { for (Thread *t : T) if (t->real == p) return t; return nullptr; }
int pthread_join(pthread_t p, void **ret)
{
  if (!s_active) OUT(pthread_join, p, ret);
  Thread *t = byReal(p);
  if (!t) return ESRCH;
  if (t == me) return EDEADLK;
  static thread_local char what[80];
  snprintf(what, sizeof what, "the end of %s", t->name.c_str());
  waitUntil(what, [t] { return t->st == Thread::DONE; });
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) { if (!s_active) OUT(pthread_detach, p); return 0; }
int pthread_kill(pthread_t p, int sig)
{
  if (!s_active) OUT(pthread_kill, p, sig);
  Thread *t = byReal(p);
  if (!t) return ESRCH;
  // a thread that has ended but is not joined takes the signal silently (glibc 2.34 and later)
  if (t->st == Thread::DONE) { syncPoint(); return 0; }
  t->pend |= 1ull << (sig - 1);
  syncPoint();
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
  if (!s_active) OUT(pthread_mutex_lock, m);
  syncPoint();
  s_in = true;
  Mtx &x = s_mtx[m];
  if (x.owner == me) {
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++x.n; s_in = false; return 0; }
    if (m->__data.__kind == PTHREAD_MUTEX_ERRORCHECK_NP) { s_in = false; return EDEADLK; }
    violation("self-deadlock", "thread " + me->name + " locks a mutex it already holds");
  }
  s_in = false;
  if (x.owner) waitUntil("a mutex", [&x] { return !x.owner; });
  x.owner = me;
  x.n = 1;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
  if (!s_active) OUT(pthread_mutex_trylock, m);
  syncPoint();
  Mtx &x = s_mtx[m];
  if (x.owner == me && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++x.n; return 0; }
  if (x.owner) return EBUSY;
  x.owner = me;
  x.n = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  if (!s_active) OUT(pthread_mutex_unlock, m);
  Mtx &x = s_mtx[m];
  if (x.owner != me) violation("unlock-not-owner", "thread " + me->name + " unlocks a mutex it does not hold");
  if (--x.n == 0) x.owner = nullptr;
  syncPoint();
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
  if (!s_active) OUT(pthread_mutex_destroy, m);
  s_mtx.erase(m);
  return 0;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, nanos deadline)
{
  syncPoint();
  bool woken = false;
  s_in = true;
  s_cond[c].w.push_back(std::make_pair(me->id, &woken));
  s_in = false;
  Mtx &x = s_mtx[m];
  unsigned n = x.n;
  if (x.owner != me) violation("unlock-not-owner", "thread " + me->name + " waits on a condition without its mutex");
  x.owner = nullptr;
  x.n = 0;
  int r = waitUntil("a condition variable", [&woken] { return woken; }, deadline);
  s_in = true;
  auto &w = s_cond[c].w;
  for (auto it = w.begin(); it != w.end(); ++it) if (it->second == &woken) { w.erase(it); break; }
  s_in = false;
  if (x.owner) waitUntil("a mutex", [&x] { return !x.owner; });
  x.owner = me;
  x.n = n;
  return woken ? 0 : r;
}
static nanos fromAbs(clockid_t k, const struct timespec *ts)
{
  int64_t v = (int64_t) ts->tv_sec * (int64_t) SEC + ts->tv_nsec;
  if (k == CLOCK_REALTIME) v -= s_wall;
  return v < 0 ? 0 : v;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!s_active) OUT(pthread_cond_wait, c, m); return condWait(c, m, NEVER); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!s_active) OUT(pthread_cond_timedwait, c, m, t); return condWait(c, m, fromAbs(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!s_active) OUT(pthread_cond_clockwait, c, m, k, t); return condWait(c, m, fromAbs(k, t)); }
int pthread_cond_signal(pthread_cond_t *c)
{
  if (!s_active) OUT(pthread_cond_signal, c);
  s_in = true;
  auto &w = s_cond[c].w;
  std::vector<bool *> z;
  for (auto &p : w) if (!*p.second) z.push_back(p.second);
  if (!z.empty()) *z[choose(z.size())] = true;
  s_in = false;
  syncPoint();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
  if (!s_active) OUT(pthread_cond_broadcast, c);
  s_in = true;
  for (auto &p : s_cond[c].w) *p.second = true;
  s_in = false;
  syncPoint();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) { if (!s_active) OUT(pthread_cond_destroy, c); s_cond.erase(c); return 0; }
int sched_yield() { if (!s_active) OUT(sched_yield); syncPoint(); return 0; }

int sem_init(sem_t *s, int sh, unsigned v) { if (!s_active) OUT(sem_init, s, sh, v); s_sem[s] = v; return 0; }
int sem_destroy(sem_t *s) { if (!s_active) OUT(sem_destroy, s); s_sem.erase(s); return 0; }
static long &semVal(sem_t *s)
{
  auto it = s_sem.find(s);
  if (it == s_sem.end()) { int v = 0; static auto real = (int (*)(sem_t *, int *)) dlsym(RTLD_NEXT, "sem_getvalue"); real(s, &v); it = s_sem.insert(std::make_pair((void *) s, (long) v)).first; }
  return it->second;
}
int sem_post(sem_t *s)
{
  if (!s_active) OUT(sem_post, s);
  syncPoint();
  bool q = s_in;
  s_in = true;
  ++semVal(s);
  s_in = q;
  syncPoint();
  return 0;
}
int sem_wait(sem_t *s)
{
  if (!s_active) OUT(sem_wait, s);
  long &v = semVal(s);
  int r = waitUntil("a semaphore", [&v] { return v > 0; }, NEVER, true);
  if (r) { errno = r; return -1; }
  --v;
  return 0;
}
int sem_trywait(sem_t *s)
{
  if (!s_active) OUT(sem_trywait, s);
  syncPoint();
  long &v = semVal(s);
  if (v <= 0) { errno = EAGAIN; return -1; }
  --v;
  return 0;
}
int sem_timedwait(sem_t *s, const struct timespec *t)
{
  if (!s_active) OUT(sem_timedwait, s, t);
  long &v = semVal(s);
  int r = waitUntil("a semaphore", [&v] { return v > 0; }, fromAbs(CLOCK_REALTIME, t), true);
  if (r) { errno = r; return -1; }
  --v;
  return 0;
}
int sem_getvalue(sem_t *s, int *v) { if (!s_active) OUT(sem_getvalue, s, v); *v = semVal(s); return 0; }

// ---- clocks and timers
static void toTs(int64_t n, struct timespec *t) { t->tv_sec = n / (int64_t) SEC; t->tv_nsec = n % (int64_t) SEC; }
int clock_gettime(clockid_t k, struct timespec *t)
{
  if (!s_active) OUT(clock_gettime, k, t);
  syncPoint();
  toTs((int64_t) s_now + (k == CLOCK_REALTIME ? s_wall : 0), t);
  return 0;
}
int gettimeofday(struct timeval *t, void *z)
{
  if (!s_active) OUT(gettimeofday, t, z);
  syncPoint();
  int64_t n = (int64_t) s_now + s_wall;
  t->tv_sec = n / (int64_t) SEC;
  t->tv_usec = n % (int64_t) SEC / 1000;
  return 0;
}
time_t time(time_t *t)
{
  if (!s_active) OUT(time, t);
  time_t v = ((int64_t) s_now + s_wall) / (int64_t) SEC;
  if (t) *t = v;
  return v;
}
int nanosleep(const struct timespec *r, struct timespec *rem)
{
  if (!s_active) OUT(nanosleep, r, rem);
  nanos end = s_now + r->tv_sec * SEC + r->tv_nsec;
  int x = waitUntil("sleep", [] { return false; }, end, true);
  if (x == EINTR) { if (rem) toTs(end > s_now ? end - s_now : 0, rem); errno = EINTR; return -1; }
  return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec *r, struct timespec *rem)
{
  if (!s_active) OUT(clock_nanosleep, k, fl, r, rem);
  nanos end = fl & TIMER_ABSTIME ? fromAbs(k, r) : s_now + r->tv_sec * SEC + r->tv_nsec;
  int x = waitUntil("sleep", [] { return false; }, end, true);
  return x == EINTR ? EINTR : 0;
}
unsigned sleep(unsigned n)
{
  if (!s_active) OUT(sleep, n);
  nanos end = s_now + n * SEC;
  int x = waitUntil("sleep", [] { return false; }, end, true);
  return x == EINTR && end > s_now ? (end - s_now + SEC - 1) / SEC : 0;
}
int usleep(useconds_t n)
{
  if (!s_active) OUT(usleep, n);
  int x = waitUntil("sleep", [] { return false; }, s_now + n * US, true);
  if (x == EINTR) { errno = EINTR; return -1; }
  return 0;
}
int timer_create(clockid_t k, struct sigevent *e, timer_t *id)
{
  if (!s_active) OUT(timer_create, k, e, id);
  syncPoint();
  if (failTimers) { --failTimers; count("fault.timer_create"); errno = EAGAIN; return -1; }
  PosixTimer *t = new PosixTimer;
  t->wall = k == CLOCK_REALTIME;
  if (e && e->sigev_notify == SIGEV_THREAD) { t->thread = true; t->fn = e->sigev_notify_function; t->val = e->sigev_value; }
  else t->sig = e ? e->sigev_signo : SIGALRM;
  long i = s_timerId++;
  s_timers[i] = t;
  *id = (timer_t) i;
  return 0;
}
int timer_settime(timer_t id, int fl, const struct itimerspec *v, struct itimerspec *o)
{
  if (!s_active) OUT(timer_settime, id, fl, v, o);
  syncPoint();
  auto it = s_timers.find((long) id);
  if (it == s_timers.end() || !it->second->live) { errno = EINVAL; return -1; }
  PosixTimer *t = it->second;
  if (v->it_value.tv_nsec < 0 || v->it_value.tv_nsec >= (long) SEC || v->it_interval.tv_nsec < 0 || v->it_interval.tv_nsec >= (long) SEC || v->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
  if (o) memset(o, 0, sizeof *o);
  nanos d = v->it_value.tv_sec * SEC + v->it_value.tv_nsec;
  t->iv = v->it_interval.tv_sec * SEC + v->it_interval.tv_nsec;
  if (!d) t->next = NEVER;
  t->absWall = (fl & TIMER_ABSTIME) && t->wall;
  t->wallAt = (int64_t) d;
  if (!d) ;
  else t->next = fl & TIMER_ABSTIME ? fromAbs(t->wall ? CLOCK_REALTIME : CLOCK_MONOTONIC, &v->it_value) : s_now + d;
  count("env.timer_set");
  trace(t->next == NEVER ? std::string("timer off") : "timer set for +" + std::to_string(((double) t->next - (double) s_now) / 1e9));
  armTimer(t);
  syncPoint();
  return 0;
}
int timer_delete(timer_t id)
{
  if (!s_active) OUT(timer_delete, id);
  syncPoint();
  auto it = s_timers.find((long) id);
  if (it == s_timers.end() || !it->second->live) { errno = EINVAL; return -1; }
  it->second->live = false;
  ++it->second->gen;
  return 0;
}
int setitimer(__itimer_which_t w, const struct itimerval *v, struct itimerval *o)
{
  if (!s_active) OUT(setitimer, w, v, o);
  syncPoint();
  if (v->it_value.tv_usec < 0 || v->it_value.tv_usec >= 1000000 || v->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
  if (o) {
    memset(o, 0, sizeof *o);
    if (s_itimer.next != NEVER) { nanos l = s_itimer.next > s_now ? s_itimer.next - s_now : US; o->it_value.tv_sec = l / SEC; o->it_value.tv_usec = l % SEC / US; }
    o->it_interval.tv_sec = s_itimer.iv / SEC;
    o->it_interval.tv_usec = s_itimer.iv % SEC / US;
  }
  s_itimer.sig = SIGALRM;
  nanos d = v->it_value.tv_sec * SEC + v->it_value.tv_usec * US;
  s_itimer.iv = v->it_interval.tv_sec * SEC + v->it_interval.tv_usec * US;
  s_itimer.next = d ? s_now + d : NEVER;
  count("env.timer_set");
  trace(s_itimer.next == NEVER ? std::string("timer off") : "itimer set for +" + std::to_string(((double) s_itimer.next - (double) s_now) / 1e9));
  armTimer(&s_itimer);
  syncPoint();
  return 0;
}
int getitimer(__itimer_which_t w, struct itimerval *o)
{
  if (!s_active) OUT(getitimer, w, o);
  memset(o, 0, sizeof *o);
  if (s_itimer.next != NEVER) { nanos l = s_itimer.next > s_now ? s_itimer.next - s_now : US; o->it_value.tv_sec = l / SEC; o->it_value.tv_usec = l % SEC / US; }
  return 0;
}
// ---- signals
static void discardIgnored(int sig) // POSIX: ignoring a signal discards it where it is pending
{
  if (s_act[sig].sa_handler != SIG_IGN) return;
  uint64_t b = 1ull << (sig - 1);
  s_procPend &= ~b;
  for (Thread *t : T) { t->pend &= ~b; t->shared &= ~b; }
}
int sigaction(int sig, const struct sigaction *a, struct sigaction *o)
{
  if (!s_active) OUT(sigaction, sig, a, o);
  if (sig < 1 || sig > 64) { errno = EINVAL; return -1; }
  if (o) *o = s_act[sig];
  if (a) { s_act[sig] = *a; discardIgnored(sig); }
  syncPoint();
  return 0;
}
sighandler_t signal(int sig, sighandler_t h)
{
  if (!s_active) OUT(signal, sig, h);
  sighandler_t o = s_act[sig].sa_handler;
  memset(&s_act[sig], 0, sizeof s_act[sig]);
  s_act[sig].sa_handler = h;
  discardIgnored(sig);
  return o;
}
static int setMask(int how, const sigset_t *s, sigset_t *o)
{
  if (o) { sigemptyset(o); for (int i = 1; i < 64; ++i) if (me->mask & (1ull << (i - 1))) sigaddset(o, i); }
  if (s) {
    uint64_t m = 0;
    for (int i = 1; i < 64; ++i) if (sigismember(s, i) == 1) m |= 1ull << (i - 1);
    if (how == SIG_BLOCK) me->mask |= m;
    else if (how == SIG_UNBLOCK) me->mask &= ~m;
    else if (how == SIG_SETMASK) me->mask = m;
    else return EINVAL;
    // signals pending for the process and no longer blocked
    uint64_t d = s_procPend & ~me->mask;
    me->pend |= d;
    me->shared |= d;
    s_procPend &= ~d;
    // one this thread now blocks can still go to another
    d = me->pend & me->shared & me->mask;
    me->pend &= ~d;
    for (; d; d &= d - 1) raiseProcess(__builtin_ctzll(d) + 1);
  }
  syncPoint();
  return 0;
}
int pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { if (!s_active) OUT(pthread_sigmask, how, s, o); return setMask(how, s, o); }
int sigprocmask(int how, const sigset_t *s, sigset_t *o)
{
  if (!s_active) OUT(sigprocmask, how, s, o);
  int r = setMask(how, s, o);
  if (r) { errno = r; return -1; }
  return 0;
}
int kill(pid_t p, int sig)
{
  if (!s_active || p != getpid()) OUT(kill, p, sig);
  count("probe.kill_self");
  event("kill self with %d", sig);
  raiseProcess(sig);
  syncPoint();
  return 0;
}
int raise(int sig)
{
  if (!s_active || sig == SIGABRT) OUT(raise, sig);
  me->pend |= 1ull << (sig - 1);
  syncPoint();
  return 0;
}
int sigwait(const sigset_t *s, int *sig)
{
  if (!s_active) OUT(sigwait, s, sig);
  uint64_t m = 0;
  for (int i = 1; i < 64; ++i) if (sigismember(s, i) == 1) m |= 1ull << (i - 1);
  Thread *t = me;
  t->sigwaits = m;
  waitUntil("a signal", [t, m] { return ((t->pend | s_procPend) & m) != 0; });
  t->sigwaits = 0;
  uint64_t d = (t->pend | s_procPend) & m;
  int g = __builtin_ctzll(d) + 1;
  if (t->pend & (1ull << (g - 1))) t->pend &= ~(1ull << (g - 1));
  else s_procPend &= ~(1ull << (g - 1));
  *sig = g;
  event("sigwait got %d", g);
  return 0;
}
// ---- static initialisation guards
int __cxa_guard_acquire(long long *g)
{
  char *c = (char *) g;
  if (c[0]) return 0;
  if (!s_active || !c[1]) { c[1] = 1; return 1; }
  waitUntil("a static initialiser", [c] { return c[0] || !c[1]; });
  if (c[0]) return 0;
  c[1] = 1;
  return 1;
}
void __cxa_guard_release(long long *g) { char *c = (char *) g; c[0] = 1; c[1] = 0; }
void __cxa_guard_abort(long long *g) { ((char *) g)[1] = 0; }

// ---- memory accesses of instrumented code
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define MP(n) void __tsan_##n(void *p) { memPoint(p); }
MP(read1) MP(read2) MP(read4) MP(read8) MP(read16) MP(write1) MP(write2) MP(write4) MP(write8) MP(write16)
MP(unaligned_read2) MP(unaligned_read4) MP(unaligned_read8) MP(unaligned_read16)
MP(unaligned_write2) MP(unaligned_write4) MP(unaligned_write8) MP(unaligned_write16)
MP(volatile_read1) MP(volatile_read2) MP(volatile_read4) MP(volatile_read8) MP(volatile_read16)
MP(volatile_write1) MP(volatile_write2) MP(volatile_write4) MP(volatile_write8) MP(volatile_write16)
MP(vptr_read)
void __tsan_vptr_update(void **p, void *) { memPoint(p); }
void __tsan_read_range(void *p, unsigned long) { memPoint(p); }
void __tsan_write_range(void *p, unsigned long) { memPoint(p); }
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int) { syncPoint(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T *a, T v, int) { syncPoint(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); syncPoint(); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { syncPoint(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { syncPoint(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { syncPoint(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { syncPoint(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { syncPoint(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { syncPoint(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { syncPoint(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { syncPoint(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { syncPoint(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { syncPoint(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
