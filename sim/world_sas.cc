// W6: the stand-alone simulator. The real script reader, agenda, timing service and
// simulator loop; the executive's side (requests, lookups) and the relay are the harness's.
// With SIM_PROGRAM: the simulator as a program, with its own main(), its own relay and the
// message passing below it, over the simulated message bus; only the executives are the harness's.
#ifdef SIM_PROGRAM
#include "simipc.hh"
#include "plexil-stdint.h"
int simulator_main(int argc, char **argv);
#endif
#include "simcore.hh"

#include "Agenda.hh"
#include "CommRelayBase.hh"
#include "CommandResponseManager.hh"
#include "PlexilSimResponseFactory.hh"
#include "ResponseFactory.hh"
#include "ResponseMessage.hh"
#include "Simulator.hh"
#include "SimulatorScriptReader.hh"
#include "Value.hh"

#include <csignal>
#include <cstdlib>
#include <map>
#include <memory>
#include <sstream>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace P = PLEXIL;
using namespace sim;
using std::string;
using std::vector;

namespace {
typedef int64_t micros;
const micros TOL = 2;          // delays are decimal numbers; the code counts whole microseconds
micros wall() { return (micros) ((now() + wallOffset()) / 1000); }

struct Entry { micros delay; bool answers; P::Value value; };
struct Cmd { bool hasDefault = false; Entry def; std::map<int, Entry> byIndex; int asked = 0; };
struct Telem { string name; micros delay; P::Value value; bool sent = false; };
struct Req { int id; string name; micros t0, t1 = -1; bool expect = false; Entry e; bool sent = false; string uid; long serial = 0; };
struct Sent { micros lo, hi, known; string what; };   // its time lies in [lo,hi]; known: when the simulator was sure to know of it
struct H {
  std::map<string, Cmd> cmds;
  vector<Telem> telem;
  std::map<string, vector<int>> seqOf;     // state -> indexes into telem, by time
  std::map<string, int> sentOf;            // state -> how many were sent
  vector<std::unique_ptr<Req>> reqs;
  vector<Sent> sent;
  micros start0 = 0, start1 = 0;
  std::unique_ptr<Simulator> sim;
  micros back = 0;        // how far the clock has been set back in all
  bool jumped = false, over = false, toldToStop = false;
  int left = 0;
};
H *W;
string show(P::Value const &v) { std::ostringstream s; s << v; return s.str(); }

void checkOrder(Sent const &n)
{
  if (!W->jumped) for (Sent const &o : W->sent)
    if (o.lo > n.hi + TOL && n.known >= 0 && n.known < o.lo - TOL)
      violation("order", o.what + " was sent before " + n.what + " which was due earlier");
  W->sent.push_back(n);
}

void responded(int type, string const &name, Req *q, P::Value const &v, bool lost = false)
{
  H &h = *W;
  micros t = wall();
  if (h.over) violation("late", "a response was sent after the simulator had ended");
  event("sent type %d %s", type, name.c_str());
  if (type == MSG_TELEMETRY) {
    int &k = h.sentOf[name];
    vector<int> &s = h.seqOf[name];
    if (k >= (int) s.size()) violation("duplicate", "state " + name + " was published more often than the script says (" + show(v) + ")");
    Telem &e = h.telem[s[k]];
    if (!lost && !e.value.equals(v)) violation("telemetry", "publication " + std::to_string(k + 1) + " of " + e.name + " should be " + show(e.value) + ", was " + show(v));
    ++k;
    e.sent = true;
    if (t + TOL + h.back < h.start0 + e.delay) violation("early", "state " + e.name + " was published " + std::to_string(h.start0 + e.delay - t) + " us early");
    checkOrder({h.start0 + e.delay, h.start1 + e.delay, h.start0, "state " + e.name});
    count("probe.telemetry");
    return;
  }
  string w = "the response to request " + std::to_string(q->id) + " of " + q->name;
  if (!q->expect) violation("uncalled", w + " was sent; the script has none");
  if (q->sent) violation("duplicate", w + " was sent twice");
  if (name != q->name) violation("name", w + " has the name " + name);
  if (!lost && !q->e.value.equals(v)) violation("value", w + " should be " + show(q->e.value) + ", was " + show(v));
  if (t + TOL + h.back < q->t0 + q->e.delay) violation("early", w + " was sent " + std::to_string(q->t0 + q->e.delay - t) + " us early");
  q->sent = true;
  nontrivial();
  micros t1 = q->t1 < 0 ? t : q->t1;
  checkOrder({q->t0 + q->e.delay, t1 + q->e.delay, q->t1, w});
  count("probe.responses");
}
#ifndef SIM_PROGRAM
struct Relay : CommRelayBase {
  Relay() : CommRelayBase("Sim") {}
  void sendResponse(const ResponseMessage *r) override
  {
    NoPreempt np;
    Req *q = nullptr;
    if (r->getMessageType() == MSG_TELEMETRY) { if (r->getId()) violation("telemetry", "telemetry has an id"); }
    else {
      if (r->getMessageType() != MSG_COMMAND) violation("kind", "a response of the wrong kind was sent");
      for (auto &x : W->reqs) if (x.get() == r->getId()) q = x.get();
      if (!q) violation("id", "a response with an unknown id was sent");
    }
    responded(r->getMessageType(), r->getName(), q, r->getValue());
    delete r;
  }
};
#endif

// every response due by now (less what timers and threads may be late) has been sent
void checkSettled()
{
  H &h = *W;
  micros t = wall() - (micros) (3 * params.timerLate / 1000 + 2 * params.stallMax / 1000) - TOL - 1000;
  for (Telem &e : h.telem) if (!e.sent && h.start1 + e.delay < t)
    violation("not-sent", "state " + e.name + " = " + show(e.value) + ", due " + std::to_string(t - h.start1 - e.delay) + " us ago, was not published; threads: " + threadDump());
  for (auto &q : h.reqs) if (q->expect && !q->sent && q->t1 >= 0 && q->t1 + q->e.delay < t)
    violation("not-sent", "the response to request " + std::to_string(q->id) + " of " + q->name + ", due " + std::to_string(t - q->t1 - q->e.delay) + " us ago, was not sent; threads: " + threadDump());
}

string numText(micros d)
{
  char b[40];
  snprintf(b, sizeof b, "%lld.%06lld", (long long) d / 1000000, (long long) d % 1000000);
  string s = b;
  if (chance(1, 2)) { while (s.back() == '0') s.pop_back(); if (s.back() == '.') { if (chance(1, 2)) s.pop_back(); else s += '0'; } }
  return s;
}
micros drawDelay()
{
  switch (weighted({3, 3, 3, 2, 2})) {
  case 0: return 0;
  case 1: return (micros) (1 + choose(5)) * 1000000;
  case 2: return (micros) (1 + choose(20)) * 100000;
  case 3: return 1 + choose(2000);
  default: return 1 + (micros) choose(4000) * 997;
  }
}
enum Ty { TB, TI, TR, TS };
const char *tyName[] = {"Boolean", "Integer", "Real", "String"};
P::Value drawValue(Ty t, string &text)
{
  switch (t) {
  case TB: { bool b = choose(2); text = b ? "true" : "false"; if (chance(1, 4)) text = b ? "1" : "0"; return P::Value(b); }
  case TI: { int i = (int) choose(200) - 100; if (chance(1, 8)) i = chance(1, 2) ? 2147483647 : -2147483647; text = std::to_string(i); return P::Value((P::Integer) i); }
  case TR: { double d = ((int) choose(4000) - 2000) / 16.0; std::ostringstream s; s.precision(12); s << d; text = s.str(); return P::Value(d); }
  default: {
    static const char *words[] = {"abc", "x", "two words", "42", "Command", "a  b", "true", "BEGIN_TELEMETRY"};
    text = words[choose(8)];
    return P::Value(text);
  }
  }
}
void noise(string &s)
{
  for (unsigned n = geometric(1, 3); n; --n) s += chance(1, 2) ? "\n" : chance(1, 2) ? "# a comment\n" : "   \n";
}

// Scripts, and what they mean
string script(bool old, unsigned part, std::map<string, Ty> &types, bool telemetryOnly = false)
{
  H &h = *W;
  string s;
  static const char *cn[] = {"MoveTo", "Grab", "Shoot", "Look"}, *sn[] = {"x", "battery", "mode"};
  vector<string> cs, ss;
  unsigned nc = telemetryOnly ? 0 : choose(4), ns = choose(3);
  for (unsigned i = 0; i < nc; ++i) cs.push_back(string(cn[choose(4)]) + std::to_string(part));
  for (unsigned i = 0; i < ns; ++i) ss.push_back(string(sn[choose(3)]) + std::to_string(part));
  auto uniq = [](vector<string> &v) { vector<string> o; for (auto &x : v) { bool d = false; for (auto &y : o) d |= x == y; if (!d) o.push_back(x); } v = o; };
  uniq(cs); uniq(ss);
  for (auto &c : cs) { types[c] = old ? TR : (Ty) choose(4); if (!old) { s += string(tyName[types[c]]) + " Command " + c + "\n"; noise(s); } }
  for (auto &c : ss) { types[c] = old ? TR : (Ty) choose(4); if (!old) { s += string(tyName[types[c]]) + " Lookup " + c + "\n"; noise(s); } }
  auto cmdEntries = [&](string const &c) {
    Cmd &k = h.cmds[c];
    unsigned n = 1 + choose(4);
    for (unsigned i = 0; i < n; ++i) {
      int idx = choose(5);
      Entry e;
      e.delay = drawDelay();
      e.answers = !chance(1, 6);
      string t;
      e.value = drawValue(types[c], t);
      s += c + " " + std::to_string(idx) + " " + (e.answers ? "1 " : "0 ") + numText(e.delay) + "\n";
      noise(s);
      s += t + "\n";
      noise(s);
      // the first entry for an index counts; of several defaults the last
      if (idx == 0) { k.hasDefault = true; k.def = e; }
      else k.byIndex.insert(std::make_pair(idx, e));
    }
  };
  auto telEntries = [&](string const &c) {
    unsigned n = 1 + choose(4);
    for (unsigned i = 0; i < n; ++i) {
      Telem e;
      e.name = c;
      e.delay = i && chance(1, 4) ? h.telem.back().delay : drawDelay();
      string t;
      e.value = drawValue(types[c], t);
      s += c + " " + numText(e.delay) + "\n";
      noise(s);
      s += t + "\n";
      noise(s);
      h.telem.push_back(e);
    }
  };
  if (telemetryOnly) for (auto &c : ss) telEntries(c);
  else if (old) {
    bool telFirst = chance(1, 3), implied = !part && !telFirst && chance(1, 2);
    for (int half = 0; half < 2; ++half) {
      if ((half == 0) == telFirst) { if (!ss.empty()) { s += "BEGIN_TELEMETRY\n"; noise(s); for (auto &c : ss) telEntries(c); } }
      else if (!cs.empty()) { if (!implied) { s += "BEGIN_COMMANDS\n"; noise(s); } for (auto &c : cs) cmdEntries(c); }
    }
  }
  else {
    vector<std::pair<bool, string>> all;
    for (auto &c : cs) all.push_back({true, c});
    for (auto &c : ss) all.push_back({false, c});
    for (unsigned i = 0; i + 1 < all.size(); ++i) std::swap(all[i], all[i + choose(all.size() - i)]);
    for (auto &c : all) if (c.first) cmdEntries(c.second); else telEntries(c.second);
  }
  if (!s.empty() && chance(1, 3)) s.pop_back();     // the last line without a newline
  return s;
}

void blockSignals()
{
  sigset_t s;
  sigemptyset(&s);
  for (int g : {SIGALRM, SIGINT, SIGHUP, SIGQUIT, SIGTERM}) sigaddset(&s, g);
  pthread_sigmask(SIG_BLOCK, &s, nullptr);
}

void unblockSignals()
{
  sigset_t s;
  sigfillset(&s);
  pthread_sigmask(SIG_UNBLOCK, &s, nullptr);
}

Req *newRequest(string const &name)
{
  H &h = *W;
  Req *q = new Req;
  q->id = h.reqs.size() + 1;
  q->name = name;
  auto it = h.cmds.find(name);
  if (it != h.cmds.end()) {
    Cmd &c = it->second;
    int n = ++c.asked;
    auto e = c.byIndex.find(n);
    if (e != c.byIndex.end()) { q->e = e->second; q->expect = q->e.answers; }
    else if (c.hasDefault) { q->e = c.def; q->expect = q->e.answers; }
  }
  h.reqs.emplace_back(q);
  q->t0 = wall();
  event("request %d %s", q->id, name.c_str());
  return q;
}
vector<int> *updatesOf(string const &name)
{
  static vector<int> none;
  auto it = W->seqOf.find(name);
  return it == W->seqOf.end() ? &none : &it->second;
}
// a lookup which began when k0 updates had been published got this (null: nothing)
void answered(string const &name, int k0, P::Value const *got)
{
  H &h = *W;
  vector<int> *q = updatesOf(name);
  int k1 = h.sentOf[name];
  string want;
  for (int k = k0; k <= k1 + 1; ++k) {
    if (k > (int) q->size()) break;
    if (k > k1 && h.start0 + h.telem[(*q)[k - 1]].delay > wall() + TOL + h.back) break;   // not due yet
    if (k == 0) { want += " nothing"; if (!got) return; }
    else { want += " " + show(h.telem[(*q)[k - 1]].value); if (got && h.telem[(*q)[k - 1]].value.equals(*got)) { count("probe.lookups"); return; } }
  }
  violation("lookup", "a lookup of " + name + " gave " + (got ? show(*got) : "nothing") + " instead of" + want);
}
#ifdef SIM_PROGRAM
#include "sas_program.hh"
#else
void request(string const &name)
{
  Req *q;
  { NoPreempt np; q = newRequest(name); }
  W->sim->scheduleResponseForCommand(name, q);
  NoPreempt np;
  q->t1 = wall();
  event("requested %d", q->id);
}
void lookup(string const &name)
{
  int k0;
  { NoPreempt np; k0 = W->sentOf[name]; event("look up %s", name.c_str()); }
  static int token;
  std::unique_ptr<ResponseMessage> r(W->sim->getLookupNowResponse(name, &token));
  NoPreempt np;
  if (r && (r->getName() != name || r->getId() != &token || r->getMessageType() != MSG_LOOKUP)) violation("lookup", "the response to a lookup of " + name + " has the wrong name, id or type");
  answered(name, k0, r ? &r->getValue() : nullptr);
}
#endif

void client(vector<string> names, vector<string> states, unsigned n, bool jumps)
{
  blockSignals();
  H &h = *W;
  for (unsigned i = 0; i < n; ++i) {
    if (chance(1, 3)) sleepFor((nanos) (chance(1, 2) ? 1 + choose(3000) : 1000 * (1 + choose(3000))) * US);
    switch (weighted({6, 2, jumps ? 1u : 0u})) {
    case 0: request(names[choose(names.size())]); break;
    case 1: lookup(states[choose(states.size())]); break;
    default: {
      int64_t j = ((int64_t) choose(4000) - 2000) * (int64_t) MS;
      count(j < 0 ? "fault.clock_back" : "fault.clock_forward");
      h.jumped = true;
      if (j < 0) h.back -= j / 1000;
      event("clock jump %lld", (long long) j);
      jumpClock(j);
    }
    }
  }
  --h.left;
}

void simulated()
{
  H h;
  W = &h;
  blockSignals();
  params.memPreempt = chance(3, 4);
  params.timerLate = choose(3) ? 0 : (nanos) (1 + choose(3000)) * 10 * US;
  if (chance(1, 3)) { params.stallMean = 60 + choose(200); params.stallMax = (nanos) (1 + choose(40)) * 5 * MS; }
  bool jumps = chance(1, 6);
  std::map<string, Ty> types;
#ifdef SIM_PROGRAM
  vector<string> args{"simulator"};
  prepare(args, types);
#else
  ResponseManagerMap *map = new ResponseManagerMap;
  Agenda *agenda = makeAgenda();
  {
    std::unique_ptr<SimulatorScriptReader> rd(makeScriptReader(map, agenda, makePlexilSimResponseFactory()));
    unsigned n = 1 + choose(3);
    for (unsigned i = 0; i < n; ++i) {
      string s = script(chance(1, 4), i, types);
      trace("script:\n" + s);
      int fd = memfd_create("script", 0);
      if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t) s.size()) inconclusive("harness: memfd");
      if (!rd->readScript("/proc/self/fd/" + std::to_string(fd))) violation("script", "a valid script was refused: " + s);
      close(fd);
    }
  }
#endif
  for (unsigned i = 0; i < h.telem.size(); ++i) {
    vector<int> &q = h.seqOf[h.telem[i].name];
    unsigned p = q.size();
    while (p && h.telem[q[p - 1]].delay > h.telem[i].delay) --p;
    q.insert(q.begin() + p, i);
  }
  vector<string> names, states;
  for (auto &t : types) (h.cmds.count(t.first) ? names : states).push_back(t.first);
  names.push_back("Unheard");
  states.push_back("unseen");
#ifndef SIM_PROGRAM
  std::unique_ptr<Relay> relay(new Relay);
  h.sim.reset(makeSimulator(relay.get(), map, agenda));
#endif
  bool early = chance(1, 8);
  bool up = false, down = false;
  h.start0 = wall();
  h.start1 = h.start0 + 1000000000ll;
  spawn("simulator", [&] {
    h.start0 = wall();
    up = true;
#ifdef SIM_PROGRAM
    unblockSignals();
    static vector<char *> argv;
    for (auto &x : args) argv.push_back(strdup(x.c_str()));
    argv.push_back(nullptr);
    int r = simulator_main((int) args.size(), argv.data());
    if (r != expectedStatus()) violation("status", "the simulator ended with status " + std::to_string(r) + " instead of " + std::to_string(expectedStatus()));
    if (G->badArgs >= 0 && (B->connected || B->connectFailed)) violation("status", "the simulator started although its command line is wrong");
    if (G->badArgs >= 0 || r) h.toldToStop = true;
#else
    h.sim->simulatorTopLevel();
#endif
    down = true;
    event("simulator ended");
    if (!h.toldToStop) violation("ended", "the simulator ended by itself");
  });
#ifdef SIM_PROGRAM
  earlyRequests(names, states);
#endif
  waitUntil("the simulator to begin", [&] { return up; });
  waitIdle();
#ifdef SIM_PROGRAM
  if (down) { waitIdle(now() + 20 * SEC); finish(); }
  if (!B->connected) violation("no-start", "the simulator did not connect; threads: " + threadDump());
#endif
  h.start1 = wall();
  unsigned n = geometric(6, 25);
  h.left = 1;
  spawn("client", [=] { client(names, states, n, jumps); });
  // look in now and then
  for (unsigned k = choose(4); k && !h.jumped; --k) {
    waitIdle(now() + (nanos) (1 + choose(3000)) * MS);
    if (!h.jumped) checkSettled();
  }
  waitUntil("the requests", [&] { return !h.left; }, now() + 3600 * SEC);
#ifdef SIM_PROGRAM
  if (!h.left && waitUntil("the messages to arrive", [] { return bus::idle(); }, now() + 3600 * SEC)) h.left = 1;
  waitIdle(now() + 100 * MS);
#endif
  if (h.left) violation("no-progress", "the simulator did not take a request; threads: " + threadDump());
  if (!early) {
    waitIdle(now() + 30 * SEC);
    checkSettled();
    count("probe.to_the_end");
  }
  h.toldToStop = true;
#ifdef SIM_PROGRAM
  // requests which arrive while it ends
  G->closing = true;
  if (chance(1, 3)) for (unsigned k = 1 + choose(4); k; --k) { if (chance(2, 3)) request(names[choose(names.size())]); else lookup(states[choose(states.size())]); count("fault.late_request"); }
  if (chance(1, 2)) sleepFor((nanos) choose(100) * (chance(1, 2) ? US : MS));
#endif
  static const int sigs[] = {SIGTERM, SIGINT, SIGHUP, SIGQUIT};
  raiseProcess(sigs[choose(4)]);
  event("told to stop");
  waitUntil("the simulator to end", [&] { return down; }, now() + 60 * SEC);
  if (!down) violation("no-stop", "the simulator did not end on a signal; threads: " + threadDump());
  h.over = true;
  waitIdle(now() + 20 * SEC);
  struct itimerval it;
  getitimer(ITIMER_REAL, &it);
  if (it.it_value.tv_sec || it.it_value.tv_usec) violation("timer-left", "the simulator's timer is still running after it ended");
  h.sim.reset();
  simtime((double) (now() - 1000 * SEC) / 1e9);
  cover(scheduleHash());
  finish();
}
} // namespace
#ifdef SIM_PROGRAM
#define WORLD "simprog"
#else
#define WORLD "sas"
#endif
int main(int argc, char **argv) { return sim::runnerMain(argc, argv, WORLD, [] {
  sim::start();
  simulated();
}); }
