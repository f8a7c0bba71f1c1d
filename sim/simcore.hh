// Simulated threads, locks, semaphores, clocks, timers and signals.
// Real threads run one at a time; who runs next, when a thread is preempted
// (down to single memory accesses of instrumented code), how late a timer is
// and who gets a signal are choices of the run.
#ifndef SIM_CORE_HH
#define SIM_CORE_HH
#include "runner.hh"
#include <functional>
#include <string>

namespace sim {
typedef uint64_t nanos;
static const nanos NEVER = ~0ull;
static const nanos SEC = 1000000000ull, MS = 1000000ull, US = 1000ull;

struct Params {
  unsigned memPreempt = 1;     // 0: switch only at locks, semaphores, system calls
  unsigned stallMean = 0;      // mean sync points between two stalls (0: none)
  nanos stallMax = 0;
  nanos timerLate = 0;         // a timer may be this late
  bool dumpSched = false;
};
extern Params params;
extern unsigned failThreads, failTimers;   // the next calls of pthread_create, timer_create which fail for want of resources

void start();                  // the calling thread becomes thread 0; everything below is simulated from here on
bool active();
int self();
nanos now();                   // monotonic simulated time
nanos wallOffset();            // realtime = now + offset
void jumpClock(int64_t delta); // the wall clock is set
void at(nanos when, std::function<void()> f); // f runs in the scheduler: it may only change simulated state
void after(nanos d, std::function<void()> f);
void spawn(std::string const &name, std::function<void()> f);
void yield();                  // a place where another thread may run
void sleepFor(nanos d);
// Blocks until ready() holds. 0, ETIMEDOUT or EINTR (intr: a signal handler ran).
int waitUntil(const char *what, std::function<bool()> ready, nanos deadline = NEVER, bool intr = false);
// Blocks until nothing can run: every other thread is blocked. With until, simulated
// time goes on to that point first (timers fire). False if some event is still to come.
void waitIdle(nanos until = 0);
bool pendingEvents();
std::string threadDump();
void nameThread(std::string const &n);
bool threadDone(int id);
int threadCount();
void raiseProcess(int sig);    // a process-directed signal
void onDeadlock(std::function<void(std::string const &)> f);
void progressLimit(uint64_t syncPoints);
uint64_t scheduleHash();
extern uint64_t switches, preempts;
void noPreempt(bool on);       // for oracle code: no switches while on
struct NoPreempt { NoPreempt() { noPreempt(true); } ~NoPreempt() { noPreempt(false); } };
}
#endif
