// W11: the same plans, refused plans and libraries with the same environment,
// over and over in one executive. Whatever the first rounds allocate for good
// (caches, tables), the later rounds need nothing more: live memory which
// still grows in every one of them will exhaust a long mission.
#include "runner.hh"
#include "plan_model.hh"
#include "plan_gen.hh"
#include "plan_mutate.hh"
#include "lawbook.hh"

#include "PlexilExec.hh"
#include "CommandImpl.hh"
#include "Update.hh"
#include "NodeImpl.hh"
#include "Dispatcher.hh"
#include "ExecListenerBase.hh"
#include "LookupReceiver.hh"
#include "ResourceArbiterInterface.hh"
#include "StateCache.hh"
#include "State.hh"
#include "ArrayImpl.hh"
#include "Expression.hh"
#include "parsePlan.hh"
#include "planLibrary.hh"
#include "parser-utils.hh"
#include "Error.hh"
#include "pugixml.hpp"
#include <sstream>

// every allocation of the process is counted (simalloc.cc)
extern volatile size_t liveBytes, liveBlocks, allocations;
void recordAllocations(bool on);
std::string leftBy(size_t *kinds);

using namespace pm;
namespace P = PLEXIL;
using sim::choose;
using sim::chance;

namespace {
struct Rng { // the environment of one round: the same stream in every round
  uint64_t s = 1;
  uint32_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint32_t) (s >> 20); }
  uint32_t below(uint32_t n) { return next() % n; }
  bool pct(unsigned p) { return below(100) < p; }
};

struct World final : P::Dispatcher, P::ExecListenerBase {
  P::PlexilExec *exec = nullptr;
  Gen g;
  vector<Mx *> gmx;
  vector<string> texts, libTexts, refusals; // refusals: plans which may be refused
  vector<string> libRefusals;
  Rng rng;
  // settings of the run
  uint64_t envSeed = 1;
  unsigned rounds = 8, pUnknown = 10, pSilent = 0, evMax = 4, pStay = 40;
  bool reload = false;
  // one round
  struct Cmd { P::Command *c; P::ValueType t; unsigned wait; bool abort, done; };
  vector<Cmd> cmds;
  vector<std::pair<P::Update *, bool>> upds;
  vector<P::State> seen;
  bool stopping = false;
  unsigned transitions = 0, sent = 0, aborted = 0, updates = 0, lookups = 0;
  unsigned refused = 0, taken = 0, errors = 0;
  double now = 0;
  unsigned micro = 0;

  P::Value value(P::ValueType t)
  {
    if (rng.pct(pUnknown)) return P::Value(t);
    switch (t) {
    case P::BOOLEAN_TYPE: return P::Value((bool) rng.below(2));
    case P::INTEGER_TYPE: return P::Value((P::Integer) rng.below(5) - 1);
    case P::REAL_TYPE: return P::Value(((P::Real) rng.below(17) - 4) / 4);
    case P::STRING_TYPE: { static const char *s[] = {"a", "b", "ab", "a string which does not fit into the short form"}; return P::Value(P::String(s[rng.below(4)])); }
    case P::BOOLEAN_ARRAY_TYPE: case P::INTEGER_ARRAY_TYPE: case P::REAL_ARRAY_TYPE: case P::STRING_ARRAY_TYPE: {
      std::unique_ptr<P::Array> a;
      size_t n = 1;
      if (t == P::BOOLEAN_ARRAY_TYPE) a.reset(new P::BooleanArray(n));
      else if (t == P::INTEGER_ARRAY_TYPE) a.reset(new P::IntegerArray(n));
      else if (t == P::REAL_ARRAY_TYPE) a.reset(new P::RealArray(n));
      else a.reset(new P::StringArray(n));
      for (size_t i = 0; i < n; ++i) {
        P::Value v = value(P::arrayElementType(t));
        if (v.isKnown()) a->setElementValue(i, v);
      }
      return P::Value(*a);
    }
    default: return P::Value();
    }
  }
  static P::ValueType typeOf(string const &n)
  {
    if (n == "stop") return P::BOOLEAN_TYPE;
    bool arr = n[0] == 'a';
    P::ValueType t = P::INTEGER_TYPE;
    switch (n[arr]) { case 'b': t = P::BOOLEAN_TYPE; break; case 'r': t = P::REAL_TYPE; break; case 's': t = P::STRING_TYPE; break; default: break; }
    return arr ? P::arrayType(t) : t;
  }
  P::Value world(P::State const &s)
  {
    if (s.name() == "stop") return P::Value(stopping);
    if (typeOf(s.name()) >= P::ARRAY_TYPE) {   // (a plan indexes up to this length)
      P::ValueType t = typeOf(s.name()), e = P::arrayElementType(t);
      std::unique_ptr<P::Array> a;
      if (e == P::BOOLEAN_TYPE) a.reset(new P::BooleanArray(ARR_STATE));
      else if (e == P::INTEGER_TYPE) a.reset(new P::IntegerArray(ARR_STATE));
      else if (e == P::REAL_TYPE) a.reset(new P::RealArray(ARR_STATE));
      else a.reset(new P::StringArray(ARR_STATE));
      for (size_t i = 0; i < ARR_STATE; ++i) { P::Value v = value(e); if (v.isKnown()) a->setElementValue(i, v); }
      return P::Value(*a);
    }
    return value(typeOf(s.name()));
  }
  // ---- Dispatcher
  void lookupNow(P::State const &s, P::LookupReceiver *r) override
  {
    ++lookups;
    bool have = false;
    for (P::State const &o : seen) have |= o == s;
    if (!have) seen.push_back(s);
    if (s.name() != "stop") {
      if (rng.pct(pSilent)) return;
      if (rng.pct(pUnknown)) { r->setUnknown(); return; }
    }
    r->update(world(s));
  }
  void setThresholds(P::State const &, P::Real, P::Real) override {}
  void setThresholds(P::State const &, P::Integer, P::Integer) override {}
  void clearThresholds(P::State const &) override {}
  Cmd &slot(P::Command *c)
  {
    for (Cmd &k : cmds) if (k.c == c) return k;
    P::CommandImpl *i = dynamic_cast<P::CommandImpl *>(c);
    P::ValueType t = P::UNKNOWN_TYPE;
    if (i && c->isReturnExpected() && i->getDest()) t = i->getDest()->valueType();
    cmds.push_back(Cmd{c, t, 0, false, false});
    return cmds.back();
  }
  void executeCommand(P::Command *c) override { c->getArgValues(); Cmd &k = slot(c); k.wait = rng.below(4); k.abort = false; k.done = false; ++sent; }
  void reportCommandArbitrationFailure(P::Command *c) override { Cmd &k = slot(c); k.wait = 100; k.done = false; }
  void invokeAbort(P::Command *c) override { Cmd &k = slot(c); k.abort = true; k.done = false; ++aborted; }
  void executeUpdate(P::Update *u) override
  {
    ++updates;
    for (auto &p : upds) if (p.first == u) { p.second = false; return; }
    upds.push_back({u, false});
  }
  void notifyOfTransitions(vector<P::NodeTransition> const &b) override
  {
    transitions += b.size();
    if (++micro > 400) sim::inconclusive("a plan which repeats for ever within a step");
  }
  void notifyOfAssignment(P::Expression const *, string const &, P::Value const &) override {}
  void stepComplete(unsigned) override {}

  // ---- the environment
  void answer(Cmd &k)
  {
    if (k.done) return;
    if (k.wait == 100) { P::commandHandleReturn(k.c, P::COMMAND_DENIED); k.done = true; return; }
    if (k.abort) { if (!stopping && rng.pct(15)) P::commandAbortAcknowledge(k.c, false); P::commandAbortAcknowledge(k.c, true); k.done = true; return; }
    static const P::CommandHandleValue mid[] = {P::COMMAND_SENT_TO_SYSTEM, P::COMMAND_RCVD_BY_SYSTEM, P::COMMAND_ACCEPTED};
    if (!stopping && k.wait && k.wait--) { P::commandHandleReturn(k.c, mid[rng.below(3)]); return; }
    if (!stopping && rng.pct(pStay)) return;
    if (k.t != P::UNKNOWN_TYPE && rng.pct(80)) P::commandReturn(k.c, value(k.t));
    static const P::CommandHandleValue fin[] = {P::COMMAND_SUCCESS, P::COMMAND_SUCCESS, P::COMMAND_FAILED, P::COMMAND_DENIED, P::COMMAND_INTERFACE_ERROR};
    P::commandHandleReturn(k.c, stopping ? P::COMMAND_SUCCESS : fin[rng.below(5)]);
    k.done = true;
  }
  void steps(unsigned most)
  {
    for (unsigned i = 0; i < most && exec->needsStep(); ++i) { micro = 0; exec->step(now); }
  }
  bool addPlan(string const &x)
  {
    pugi::xml_document doc;
    if (!doc.load_string(x.c_str())) sim::inconclusive("harness: plan xml");
    P::NodeImpl *r = P::parsePlan(doc.document_element());
    return exec->addPlan(r);
  }
  void tryPlan(string const &x)
  {
    pugi::xml_document doc;
    if (!doc.load_string(x.c_str())) return;
    P::NodeImpl *r = nullptr;
    try { r = P::parsePlan(doc.document_element()); }
    catch (P::ParserException const &) { ++refused; }
    catch (P::Error const &) { ++refused; }
    if (r) { ++taken; delete r; }
  }
  void tryLib(string const &x)
  {
    pugi::xml_document *doc = new pugi::xml_document;
    if (!doc->load_string(x.c_str())) { delete doc; return; }
    try { if (P::loadLibraryDocument(doc)) ++taken; else ++refused; }
    catch (P::ParserException const &) { ++refused; }
    catch (P::Error const &) { ++refused; }
  }
  void round()
  {
    rng.s = envSeed;
    for (int i = 0; i < 5; ++i) rng.next();
    now = 1;
    stopping = false;
    transitions = sent = aborted = updates = lookups = refused = taken = errors = 0;
    for (string const &x : refusals) tryPlan(x);
    for (string const &x : libRefusals) tryLib(x);
    if (reload) for (string const &x : libTexts) tryLib(x);
    for (string const &x : texts) addPlan(x);
    steps(40);
    for (unsigned r = 0; r < rounds; ++r) {
      for (unsigned e = rng.below(evMax + 1); e--;) {
        if (rng.below(3) && !seen.empty()) {
          P::State s = seen[rng.below(seen.size())];
          if (s.name() == "time") continue;
          P::StateCache::instance().lookupReturn(s, world(s));
        }
        else if (!cmds.empty()) answer(cmds[rng.below(cmds.size())]);
        if (!upds.empty() && rng.below(2)) { auto &u = upds[rng.below(upds.size())]; if (!u.second) { u.second = true; u.first->acknowledge(true); } }
      }
      now += 0.25 * (1 + rng.below(8));
      steps(40);
    }
    // the environment ends every plan
    stopping = true;
    for (unsigned r = 0; r < 60; ++r) {
      for (P::State const &s : seen) if (s.name() == "stop") P::StateCache::instance().lookupReturn(s, P::Value(true));
      for (unsigned i = 0; i < cmds.size(); ++i) answer(cmds[i]);
      for (auto &u : upds) if (!u.second) { u.second = true; u.first->acknowledge(true); }
      now += 0.25;
      steps(200);
      exec->deleteFinishedPlans();
      if (exec->allPlansFinished()) break;
    }
    if (!exec->allPlansFinished()) sim::inconclusive("a plan which was told to exit did not end");
    exec->deleteFinishedPlans();
    cmds.clear();
    upds.clear();
    seen.clear();
  }

  string globals(bool withLibs)
  {
    string s = "<GlobalDeclarations>";
    for (auto &d : STATES) s += string("<StateDeclaration><Name>") + d.name + "</Name><Return><Name>r</Name><Type>" + vtName(isArr(d.t) ? eltOf(d.t) : d.t) + "</Type>" + (isArr(d.t) ? "<MaxSize>" + std::to_string(ARR_STATE) + "</MaxSize>" : "") + "</Return></StateDeclaration>";
    s += "<StateDeclaration><Name>p</Name><Return><Name>r</Name><Type>Integer</Type></Return><Parameter><Name>q</Name><Type>Integer</Type></Parameter></StateDeclaration>";
    s += "<StateDeclaration><Name>stop</Name><Return><Name>r</Name><Type>Boolean</Type></Return></StateDeclaration>";
    for (Mx *x : gmx) s += "<DeclareMutex><Name>" + x->name + "</Name></DeclareMutex>";
    if (withLibs) for (auto *l : g.libs) {
      s += "<LibraryNodeDeclaration><Name>" + l->name + "</Name><Interface>";
      string in, io;
      for (VarD *v : l->params) (v->iface == 1 ? in : io) += declXml(v);
      if (!in.empty()) s += "<In>" + in + "</In>";
      if (!io.empty()) s += "<InOut>" + io + "</InOut>";
      s += "</Interface></LibraryNodeDeclaration>";
    }
    return s + "</GlobalDeclarations>";
  }
  string wrap(string const &kid, string const &id)
  {
    return "<Node NodeType=\"NodeList\"><NodeId>" + id + "</NodeId><ExitCondition><LookupOnChange><Name><StringValue>stop</StringValue></Name></LookupOnChange></ExitCondition><NodeBody><NodeList>" + kid + "</NodeList></NodeBody></Node>";
  }
};
World *W;
string damaged(string const &x) { return planmut::damage(x, 1 + (choose(3) ? 0 : choose(3)), [](unsigned n) { return choose(n); }); }

void hierarchy(World &w)
{
  std::istringstream in("arm 1 0.5 power\nwheel 1 0.5 power 0.25 memory\npower 1\nmemory 1\n");
  if (!w.exec->getArbiter()->readResourceHierarchy(in)) sim::inconclusive("harness: resource file");
}

void run()
{
  sim::quarantine = false;
  W = new World;
  World &w = *W;
  Knobs &k = w.g.k;
  k.maxNodes = 3 + choose(14);
  k.maxDepth = 1 + choose(4);
  for (unsigned &c : k.pc) c = c * (1 + choose(4)) / 2;
  k.pLookup = choose(3) * 25;
  k.pMutex = choose(3) ? 0 : 40;
  k.wUpd = 1 + choose(4);
  k.wCmd = 3 + choose(6);
  k.wAssign = 2 + choose(6);
  k.pParam = choose(2) * 20;
  if (choose(3) == 0) k.pResource = 60;
  if (choose(2)) k.pArray = 20 + choose(60);
  if (choose(3) == 0) k.pSafe = 40;
  if (choose(3) == 0) k.deep = 50;
  unsigned libs = choose(3);
  w.rounds = 2 + choose(10);
  w.pUnknown = choose(3) * 8;
  w.pSilent = choose(3) == 0 ? 15 : 0;
  w.evMax = 1 + choose(6);
  w.pStay = choose(4) * 20;
  w.envSeed = 1 + choose(1u << 30);
  w.exec = P::makePlexilExec();
  P::g_exec = w.exec;
  P::g_dispatcher = &w;
  w.exec->setDispatcher(&w);
  w.exec->setExecListener(&w);
  if (k.pResource) hierarchy(w);
  if (k.pMutex && choose(2)) for (int i = 0; i < 2; ++i) { Mx *x = new Mx; x->name = "gm" + std::to_string(i); w.gmx.push_back(x); }
  w.g.globalMx = w.gmx;
  for (unsigned i = 0; i < libs; ++i) {
    LibDef *d = w.g.library("Lib" + std::to_string(i));
    w.libTexts.push_back("<PlexilPlan>" + w.globals(false) + ndXml(d->root) + "</PlexilPlan>");
    w.tryLib(w.libTexts.back());
    w.g.libs.push_back(d);
  }
  k.wLib = libs ? 4 : 0;
  w.reload = libs && choose(3) == 0;
  unsigned plans = 1 + choose(2);
  for (unsigned i = 0; i < plans; ++i) {
    string body = ndXml(w.g.root(string(1, (char) ('A' + i)), i));
    w.texts.push_back("<PlexilPlan>" + w.globals(true) + w.wrap(body, "W" + std::to_string(i)) + "</PlexilPlan>");
  }
  // plans and libraries which are refused, or nearly
  for (unsigned i = choose(4); i--;) {
    if (choose(2)) {
      auto const &book = lawbook::rules();
      auto const &r = book[choose(book.size())];
      string gl = w.globals(true);
      gl.insert(strlen("<GlobalDeclarations>"), lawbook::globals());
      string x = lawbook::wrapper(r, chance(3, 4)), plan = ndXml(w.g.root("U", 100));
      w.refusals.push_back("<PlexilPlan>" + gl + lawbook::node("NodeList", "U0", "", lawbook::T("NodeList", choose(2) ? x + plan : plan + x)) + "</PlexilPlan>");
    }
    else w.refusals.push_back(damaged(w.texts[choose(w.texts.size())]));
    sim::count("fault.unlawful_plan");
  }
  if (libs && choose(3) == 0) {
    string x = damaged(w.libTexts[choose(w.libTexts.size())]);
    w.libRefusals.push_back(x);
    for (string const &l : w.libTexts) w.libRefusals.push_back(l); // put the right ones back
    sim::count("fault.damaged_library");
  }
  for (string const &x : w.libTexts) sim::event("library %016llx", (unsigned long long) sim::hashStr(x.c_str()));
  for (string const &x : w.texts) sim::event("plan %016llx", (unsigned long long) sim::hashStr(x.c_str()));
  for (string const &x : w.refusals) sim::event("may be refused %016llx", (unsigned long long) sim::hashStr(x.c_str()));
  if (sim::tracing()) {
    for (string const &x : w.libTexts) sim::trace("library " + x + "\n");
    for (string const &x : w.texts) sim::trace("plan " + x + "\n");
    for (string const &x : w.refusals) sim::trace("may be refused " + x + "\n");
    for (string const &x : w.libRefusals) sim::trace("library, may be refused " + x + "\n");
  }

  const unsigned N = 12, FIRST = 5;
  size_t bytes[N], blocks[N];
  w.cmds.reserve(64);
  w.upds.reserve(64);
  w.seen.reserve(256);
  size_t before = allocations;
  try {
    for (unsigned i = 0; i < N; ++i) {
      if (i == N - 1) recordAllocations(false);
      if (i == N - 2) {
        bool g = true;
        for (unsigned j = FIRST; j < i; ++j) g = g && blocks[j] > blocks[j - 1];
        if (g) recordAllocations(true);   // what this round leaves and the next does not take back
      }
      w.round();
      bytes[i] = liveBytes;
      blocks[i] = liveBlocks;
    }
  }
  catch (std::exception const &e) {
    // an operand of the wrong type, an index out of bounds: the executive reports it
    if (sim::tracing()) sim::trace(string("the executive reports ") + e.what() + "\n");
    sim::inconclusive("the executive reports an error of the plan");
  }
  bool grows = true;
  for (unsigned i = FIRST; i < N; ++i) grows = grows && blocks[i] > blocks[i - 1] && bytes[i] > bytes[i - 1];
  sim::event("rounds: %u transitions, %u commands, %u aborts, %u updates, %u refused, %u taken", w.transitions, w.sent, w.aborted, w.updates, w.refused, w.taken);
  if (sim::tracing()) for (unsigned i = 0; i < N; ++i) sim::trace("after round " + std::to_string(i) + ": " + std::to_string(blocks[i]) + " blocks, " + std::to_string(bytes[i]) + " bytes\n");
  if (w.transitions > 8) sim::nontrivial();
  sim::count("sim.rounds", N);
  sim::count("sim.transitions", w.transitions * N);
  sim::count("sim.allocations", allocations - before);
  sim::count("probe.command", w.sent * N);
  sim::count("probe.abort", w.aborted * N);
  sim::count("probe.update", w.updates * N);
  sim::count("probe.lookup", w.lookups * N);
  sim::count("probe.plan_refused", w.refused * N);
  sim::cover(sim::mix(sim::mix(w.transitions, w.sent), sim::mix(sim::mix(w.aborted, w.updates), sim::mix(w.lookups, w.refused))));
  sim::simtime(w.now * N);
  if (grows) {
    size_t kinds = 0;
    string who = leftBy(&kinds);
    sim::violation("memory-grows", "the same plans with the same environment, " + std::to_string(N) + " times over: live memory still grows by "
                   + std::to_string(blocks[N - 1] - blocks[N - 2]) + " blocks every time although every plan was finished and removed; first left: " + who);
  }
  sim::note("teardown");
  delete w.exec;
  sim::finish();
}
} // namespace

int main(int argc, char **argv) { return sim::runnerMain(argc, argv, "leak", run); }
