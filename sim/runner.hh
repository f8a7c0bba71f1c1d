// Deterministic-simulation runner: recorded choices, one forked child per run,
// violation gating (same seed twice, fresh-process replay), shrinking.
#ifndef SIM_RUNNER_HH
#define SIM_RUNNER_HH
#include <cstdint>
#include <cstddef>
#include <string>
#include <initializer_list>

namespace sim {

// ---- choices: every nondeterministic decision of a run goes through these.
// In replay each returns the recorded value; beyond the recorded list, 0.
uint32_t choose(uint32_t n);                    // uniform in [0,n)
bool chance(unsigned num, unsigned den);        // true with probability num/den
uint32_t weighted(std::initializer_list<unsigned> w); // index, 0 is the simplest
uint32_t geometric(unsigned mean, unsigned cap); // 0 = simplest; biased towards small
uint32_t raw(uint32_t freshValue, uint32_t n);  // record a value computed from rnd()
uint64_t rnd();                                 // PRNG for raw(); never recorded by itself
bool replaying();

// ---- outcome
[[noreturn]] void violation(const std::string &cls, const std::string &msg);
[[noreturn]] void inconclusive(const char *why);
[[noreturn]] void finish();                     // run ends, property held
// ---- observation
void event(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // hashed, and traced in replay
void count(const char *name, uint64_t n = 1);   // fault kinds and probes
void cover(uint64_t h);                         // distinct-state measure
void nontrivial();                              // the run exercised the property
bool tracing();
void simtime(double seconds);                   // simulated time covered
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashStr(const char *s);
void trace(const std::string &text);             // trace only: not part of the fingerprint
void note(const char *where);                   // last phase, reported on a crash
extern const char *profile;                     // property being checked
extern const char *prop;
extern bool quarantine;                         // freed memory is kept back for a while
void breakSymbols();

int runnerMain(int argc, char **argv, const char *worldName, void (*world)());
}
#define SIM_CHECK(c, cls, msg) do { if (!(c)) ::sim::violation(cls, msg); } while (0)
#endif
