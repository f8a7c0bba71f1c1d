// W2: the real application framework (ExecApplication, InterfaceManager, input
// queue, timebases, listener hub) over the real executive, with adapter threads,
// user threads, timer threads and signals scheduled by the simulator.
#include "simcore.hh"
#include "plan_mutate.hh"

#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "Command.hh"
#include "CommandHandler.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "ExecListenerBase.hh"
#include "ExecListenerFactory.hh"
#include "ExecListenerHub.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceError.hh"
#include "ArrayImpl.hh"
#include "InterfaceManager.hh"
#include "LookupHandler.hh"
#include "LookupReceiver.hh"
#include "Node.hh"
#include "NodeImpl.hh"
#include "NodeTransition.hh"
#include "PlexilExec.hh"
#include "QueueEntry.hh"
#include "SerializedInputQueue.hh"
#include "State.hh"
#include "Timebase.hh"
#include "TimebaseFactory.hh"
#include "Update.hh"
#include "NodeConstants.hh"
#include "parsePlan.hh"
#include "planLibrary.hh"
#include "lifecycle-utils.h"
#include "pugixml.hpp"

#include <cmath>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>

namespace P = PLEXIL;
namespace PLEXIL { void registerSimAdapter(); }
extern "C" void initTimebaseFactories();
using namespace sim;
using std::string;
using std::vector;

namespace {
typedef std::pair<string, string> Rec;

struct Plan {
  string id, xml;
  unsigned watchers = 0, reqs = 0, ticks = 0, upds = 0;
  bool added = false, accepted = false, started = false, finished = false;
  nanos addedAt = 0;
};
struct Watch { unsigned n = 0; unsigned posted = 0, seen = 0, said = 0; bool say = false; };
struct Req { unsigned n = 0; vector<int> sent, got; };
struct Tick { double at = 0, tol = 1; unsigned fired = 0; nanos due = 0; };
struct Opt {
  unsigned producers = 2, reqs = 1, ticks = 0, upds = 0, plans = 1, adapters = 1, listeners = 0, waiters = 0;
  bool bkgnd = true, itimer = false, suspend = false, jumps = false, waits = false, abortive = false, slow = false;
  unsigned tickUs = 0;
};
struct H;
H *W;

struct H {
  Opt o;
  bool setBack = false;
  std::unique_ptr<P::ExecApplication> app;
  P::AdapterExecInterface *intf = nullptr;
  vector<Plan> plans;
  std::map<int, Watch> watch;
  std::map<int, Req> req;
  std::map<int, Tick> tick;
  std::map<string, bool> updSent;
  double maxWall = 0;
  int token = 100;
  // adapter
  struct Job { int kind; P::Command *cmd; P::Update *upd; int tok; int order; };
  std::deque<Job> jobs;
  bool adapterStop = false;
  unsigned adapterLive = 0, inCmd = 0;
  // controller
  bool running = false, stopping = false;
  unsigned live = 0;             // user threads still at work
  unsigned steps = 0, trans = 0; // from the tap
  nanos lastTimer = 0;

  double wall() { return ((double) now() + (double) wallOffset()) / 1e9; }
  void seeTime() { double w = wall(); if (w > maxWall) maxWall = w; }
  Plan *plan(string const &id) { for (Plan &p : plans) if (p.id == id) return &p; return nullptr; }
};

// ---------------------------------------------------------------- the adapter
void adapterThread(int k)
{
  ++W->adapterLive;
  for (;;) {
    waitUntil("adapter work", [] { return W->adapterStop || !W->jobs.empty(); });
    if (W->jobs.empty()) break;
    // replies to different requests may overtake each other
    size_t i = choose(W->jobs.size());
    H::Job j = W->jobs[i];
    W->jobs.erase(W->jobs.begin() + i);
    if (chance(1, 3)) sleepFor((nanos) (1 + choose(200)) * MS / 10);
    P::AdapterExecInterface *f = W->intf;
    if (j.kind == 0) {           // acknowledge, then return
      if (j.order) {
        f->handleCommandAck(j.cmd, P::COMMAND_SENT_TO_SYSTEM);
        if (choose(2)) { f->notifyOfExternalEvent(); if (choose(2)) sleepFor(choose(50) * MS / 10); }
      }
      f->handleCommandAck(j.cmd, P::COMMAND_SUCCESS);
      if (choose(3) == 2) f->notifyOfExternalEvent();
      f->handleCommandReturn(j.cmd, P::Value((P::Integer) j.tok));
      event("adapter %d returns %d", k, j.tok);
    }
    else if (j.kind == 1) { f->handleCommandAck(j.cmd, P::COMMAND_SUCCESS); event("adapter %d acks", k); }
    else { f->handleUpdateAck(j.upd, true); event("adapter %d acks update", k); }
    f->notifyOfExternalEvent();
  }
  --W->adapterLive;
}
int intOf(P::Value const &v) { P::Integer i = -999999; v.getValue(i); return i; }

struct Pl;
extern Pl *PL;
struct Dp;
extern Dp *DP;
struct Ln;
extern Ln *LN;
void lnTransition(P::NodeTransition const &t);
void lnAssign(string const &n, P::Value const &v);
void dpTransition(P::NodeTransition const &t);
void dpAssign(string const &n, P::Value const &v);
void plCommand(string const &n, vector<P::Value> const &a);
void plEnded(string const &id);
void execute(P::Command *cmd, P::AdapterExecInterface *f)
{
  string n = cmd->getName();
  vector<P::Value> const &a = cmd->getArgValues();
  W->seeTime();
  ++W->inCmd;
  if (W->o.slow && chance(1, 4)) { count("fault.slow_command"); sleepFor((nanos) (1 + choose(8)) * 40 * MS); }
  --W->inCmd;
  if (PL && (n == "mine" || n == "lib")) plCommand(n, a);
  if (n == "req") {
    int k = intOf(a[0]), t = W->token++;
    W->req[k].sent.push_back(t);
    event("req %d -> token %d", k, t);
    if (W->o.adapters == 0) {    // the adapter answers at once, on the exec's own thread
      f->handleCommandAck(cmd, P::COMMAND_SUCCESS);
      f->handleCommandReturn(cmd, P::Value((P::Integer) t));
      f->notifyOfExternalEvent();
    }
    else W->jobs.push_back(H::Job{0, cmd, nullptr, t, (int) choose(2)});
    return;
  }
  if (n == "got") {
    int k = intOf(a[0]), t = intOf(a[1]);
    event("got %d token %d", k, t);
    Req &r = W->req[k];
    r.got.push_back(t);
    size_t i = r.got.size() - 1;
    if (i >= r.sent.size() || r.sent[i] != t) {
      std::ostringstream s;
      s << "request stream " << k << ": reply " << i + 1 << " seen by the plan is " << t << ", sent "
        << (i < r.sent.size() ? std::to_string(r.sent[i]) : string("nothing"));
      violation("reply-mismatch", s.str());
    }
  }
  else if (n == "tick") {
    int k = intOf(a[0]);
    Tick &t = W->tick[k];
    ++t.fired;
    event("tick %d at %.3f", k, W->wall() - 1.7e9);
    if (t.fired > 1) violation("timer-twice", "the plan passed the wait for time " + std::to_string(t.at) + " twice");
    if (W->maxWall < t.at - 1e-5)
      violation("timer-early", "a node waiting for time " + std::to_string(t.at) + " started when the clock had never passed " + std::to_string(W->maxWall));
    if (!t.due) t.due = now();
  }
  else if (n == "saw") {
    int k = intOf(a[0]), v = intOf(a[1]);
    Watch &w = W->watch[k];
    event("saw %d = %d", k, v);
    if (v > (int) w.posted) violation("value-invented", "the plan saw value " + std::to_string(v) + " of state " + std::to_string(k) + " which was never posted");
    if (v <= (int) w.said) violation("order", "state " + std::to_string(k) + ": the plan saw " + std::to_string(v) + " after " + std::to_string(w.said));
    w.said = v;
  }
  if (W->o.adapters && chance(1, 2)) W->jobs.push_back(H::Job{1, cmd, nullptr, 0, 0});
  else { f->handleCommandAck(cmd, P::COMMAND_SUCCESS); f->notifyOfExternalEvent(); }
}

struct SimAdapter final : P::InterfaceAdapter {
  SimAdapter(P::AdapterExecInterface &i, P::AdapterConf *c) : P::InterfaceAdapter(i, c) { W->intf = &i; }
  bool initialize(P::AdapterConfiguration *c) override
  {
    for (const char *n : {"req", "got", "tick", "saw", "mine", "lib"})
      c->registerCommandHandlerFunction(n, [](P::Command *cmd, P::AdapterExecInterface *f) { execute(cmd, f); });
    for (int i = 0; i < 8; ++i)
      c->registerLookupHandlerFunction("s" + std::to_string(i), [i](P::State const &, P::LookupReceiver *r) {
        r->update((P::Integer) W->watch[i].posted);
      });
    c->registerPlannerUpdateHandler([](P::Update *u, P::AdapterExecInterface *f) {
      event("update from %s", u->getNodeId().c_str());
      W->updSent[u->getNodeId()] = true;
      if (W->o.adapters) W->jobs.push_back(H::Job{2, nullptr, u, 0, 0});
      else { f->handleUpdateAck(u, true); f->notifyOfExternalEvent(); }
    });
    return true;
  }
  bool start() override
  {
    for (unsigned i = 0; i < W->o.adapters; ++i) spawn("adapter" + std::to_string(i), [i] { adapterThread(i); });
    return true;
  }
  void stop() override
  {
    W->adapterStop = true;
    waitUntil("the adapter's threads", [] { return W->adapterLive == 0; });
  }
};

// ------------------------------------------------------- listeners and the tap
string path(P::Node const *n)
{
  string s;
  for (; n; n = n->getParent()) s = "/" + n->getNodeId() + s;
  return s;
}
struct Obs { char kind; string what; int a, b; };   // T transition, A assignment, P plan, L library
bool operator==(Obs const &x, Obs const &y) { return x.kind == y.kind && x.what == y.what && x.a == y.a && x.b == y.b; }
string show(Obs const &o)
{
  return o.kind == 'T' ? o.what + " " + P::nodeStateName((P::NodeState) o.a) + " -> " + P::nodeStateName((P::NodeState) o.b) :
    o.kind == 'A' ? "assignment " + o.what : o.kind == 'P' ? "plan " + o.what : "library " + o.what;
}
struct Lst;
vector<Lst *> s_lst;
struct Lst final : P::ExecListener {
  vector<Obs> got;               // transitions and assignments since the last step ended
  vector<Obs> notes;             // plans and libraries
  std::set<string> known;        // plans announced
  int id;
  bool filtered = false;
  bool en[P::NODE_STATE_MAX];
  Lst(pugi::xml_node const x) : P::ExecListener(x)
  {
    id = s_lst.size();
    s_lst.push_back(this);
    for (bool &b : en) b = true;
    pugi::xml_node f = x.child("Filter");
    if (f) {
      filtered = true;
      string st = f.child_value("States"), ig = f.child_value("IgnoredStates");
      if (!st.empty()) for (bool &b : en) b = false;
      string &l = st.empty() ? ig : st;
      std::istringstream is(l);
      string w;
      while (std::getline(is, w, ',')) {
        while (!w.empty() && w[0] == ' ') w.erase(0, 1);
        for (int i = 0; i < P::NODE_STATE_MAX; ++i) if (w == P::nodeStateName((P::NodeState) i)) en[i] = !st.empty();
      }
    }
  }
  void implementNotifyNodeTransition(P::NodeTransition const &t) const override
  {
    NoPreempt np;   // templates of the standard library may be shared with instrumented code
    ((Lst *) this)->got.push_back(Obs{'T', path(t.node), t.oldState, t.newState});
    P::Node const *r = t.node;
    while (r->getParent()) r = r->getParent();
    if (!known.count(r->getNodeId()))
      violation("listener-order", "a listener was told of a transition of " + path(t.node) + " before the plan itself was announced to it");
  }
  void implementNotifyAssignment(P::Expression const *, string const &n, P::Value const &v) const override
  {
    NoPreempt np;   // templates of the standard library may be shared with instrumented code
    std::ostringstream s;
    s << n << " = " << v;
    ((Lst *) this)->got.push_back(Obs{'A', s.str(), 0, 0});
  }
  void implementNotifyAddPlan(pugi::xml_node const x) const override
  {
    NoPreempt np;   // templates of the standard library may be shared with instrumented code
    Lst *me = (Lst *) this;
    string id = x.child("Node").child_value("NodeId");
    me->notes.push_back(Obs{'P', id, 0, 0});
    me->known.insert(id);
    event("listener told of plan %s", id.c_str());
  }
  void implementNotifyAddLibrary(pugi::xml_node const x) const override
  {
    NoPreempt np;   // templates of the standard library may be shared with instrumented code
    ((Lst *) this)->notes.push_back(Obs{'L', x.child_value("NodeId"), 0, 0});
  }
};
// stands between the executive and the real hub: what the executive really reported
struct Tap final : P::ExecListenerBase {
  P::ExecListenerBase *hub;
  vector<Obs> tr, as;
  void notifyOfTransitions(vector<P::NodeTransition> const &ts) override
  {
    NoPreempt np;   // templates of the standard library may be shared with instrumented code
    for (auto &t : ts) {
      tr.push_back(Obs{'T', path(t.node), t.oldState, t.newState});
      event("%s -> %s", tr.back().what.c_str(), P::nodeStateName(t.newState).c_str());
      ++W->trans;
      if (DP) dpTransition(t);
      if (LN) lnTransition(t);
      if (!t.node->getParent()) {
        Plan *p = W->plan(t.node->getNodeId());
        if (PL && t.newState == P::FINISHED_STATE) plEnded(t.node->getNodeId());
        if (p) { if (t.newState == P::EXECUTING_STATE) p->started = true; if (t.newState == P::FINISHED_STATE) p->finished = true; }
      }
    }
    hub->notifyOfTransitions(ts);
  }
  void notifyOfAssignment(P::Expression const *d, string const &n, P::Value const &v) override
  {
    std::ostringstream s;
    s << n << " = " << v;
    as.push_back(Obs{'A', s.str(), 0, 0});
    if (DP) dpAssign(n, v);
    if (LN) lnAssign(n, v);
    if (n.compare(0, 4, "last") == 0 && v.isKnown()) {
      int k = atoi(n.c_str() + 4);
      P::Integer i = 0;
      v.getValue(i);
      if (W->watch.count(k)) {
        Watch &w = W->watch[k];
        if (i > (int) w.posted) violation("value-invented", "the plan saw value " + std::to_string(i) + " of state " + std::to_string(k) + " which was never posted");
        if (i && i <= (int) w.seen) violation("order", "state " + std::to_string(k) + ": the plan saw " + std::to_string(i) + " after " + std::to_string(w.seen));
        if (i) w.seen = i;
      }
    }
    hub->notifyOfAssignment(d, n, v);
  }
  void stepComplete(unsigned c) override
  {
    ++W->steps;
    W->seeTime();
    hub->stepComplete(c);
    for (Lst *l : s_lst) {
      vector<Obs> want;
      for (Obs &o : tr) if (!l->filtered || l->en[o.a] || l->en[o.b]) want.push_back(o);
      want.insert(want.end(), as.begin(), as.end());
      if (!(want == l->got)) {
        size_t i = 0;
        while (i < want.size() && i < l->got.size() && want[i] == l->got[i]) ++i;
        violation("listener", "listener " + std::to_string(l->id) + (l->filtered ? " (filtered)" : "") + ", notification " + std::to_string(i + 1) + " of the step: expected "
                  + (i < want.size() ? show(want[i]) : string("none")) + ", got " + (i < l->got.size() ? show(l->got[i]) : string("none")));
      }
      if (!want.empty()) count("probe.listener_notified");
      l->got.clear();
    }
    tr.clear();
    as.clear();
  }
};
Tap s_tap;

// ----------------------------------------------------------------------- plans
string iv(int i) { return "<IntegerValue>" + std::to_string(i) + "</IntegerValue>"; }
string ivar(string const &n) { return "<IntegerVariable>" + n + "</IntegerVariable>"; }
string lookup(string const &n, double tol = -1)
{
  string s = "<LookupOnChange><Name><StringValue>" + n + "</StringValue></Name>";
  char b[60];
  if (tol > 0) { snprintf(b, sizeof b, "<Tolerance><RealValue>%.4f</RealValue></Tolerance>", tol); s += b; }
  return s + "</LookupOnChange>";
}
string decl(string const &n, int init, bool known = true)
{
  return "<DeclareVariable><Name>" + n + "</Name><Type>Integer</Type>" + (known ? "<InitialValue>" + iv(init) + "</InitialValue>" : string()) + "</DeclareVariable>";
}
string assign(string const &id, string const &conds, string const &v, string const &rhs)
{
  return "<Node NodeType=\"Assignment\"><NodeId>" + id + "</NodeId>" + conds + "<NodeBody><Assignment>" + ivar(v) + "<NumericRHS>" + rhs + "</NumericRHS></Assignment></NodeBody></Node>";
}
string command(string const &id, string const &conds, string const &name, string const &args, string const &ret)
{
  return "<Node NodeType=\"Command\"><NodeId>" + id + "</NodeId>" + conds + "<NodeBody><Command>" + (ret.empty() ? "" : ivar(ret)) +
    "<Name><StringValue>" + name + "</StringValue></Name><Arguments>" + args + "</Arguments></Command></NodeBody></Node>";
}
string finished(string const &id)
{
  return "<EQInternal><NodeStateVariable><NodeId>" + id + "</NodeId></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>";
}
string list(string const &id, string const &conds, string const &decls, string const &kids)
{
  return "<Node NodeType=\"NodeList\"><NodeId>" + id + "</NodeId>" + conds + (decls.empty() ? "" : "<VariableDeclarations>" + decls + "</VariableDeclarations>") +
    "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node>";
}
// sees every new value of state k until it reaches n, and says so
string watcher(int k, int n, bool say)
{
  string K = std::to_string(k), w = "W" + K;
  string last = "last" + K;
  string up = "<GT>" + lookup("s" + K) + ivar(last) + "</GT>";
  string kids = assign(w + "a", "<StartCondition>" + up + "</StartCondition>", last, lookup("s" + K));
  if (say) kids += command(w + "c", "<StartCondition>" + finished(w + "a") + "</StartCondition>", "saw", iv(k) + ivar(last), "");
  // "last" must survive the repetitions: it belongs to the list around
  return list(w, "", decl(last, 0), list(w + "l", "<RepeatCondition><LT>" + ivar(last) + iv(n) + "</LT></RepeatCondition>", "", kids));
}
string requester(int k, int n)
{
  string K = std::to_string(k), q = "Q" + K;
  string kids = command(q + "r", "<EndCondition><IsKnown>" + ivar("r") + "</IsKnown></EndCondition>", "req", iv(k), "r")
    + command(q + "g", "<StartCondition>" + finished(q + "r") + "</StartCondition>", "got", iv(k) + ivar("r"), "")
    + assign(q + "i", "<StartCondition>" + finished(q + "g") + "</StartCondition>", "i", "<ADD>" + ivar("i") + iv(1) + "</ADD>");
  return list(q, "", decl("i", 0), list(q + "l", "<RepeatCondition><LT>" + ivar("i") + iv(n) + "</LT></RepeatCondition>", decl("r", 0, false), kids));
}
string ticker(int k, double at, double tol)
{
  char b[80];
  snprintf(b, sizeof b, "<RealValue>%.6f</RealValue>", at);
  return command("T" + std::to_string(k), "<StartCondition><GE>" + lookup("time", tol) + b + "</GE></StartCondition>", "tick", iv(k), "");
}
string updater(int k)
{
  string K = std::to_string(k);
  return "<Node NodeType=\"Update\"><NodeId>U" + K + "</NodeId><NodeBody><Update><Pair><Name>x</Name>" + iv(k) + "</Pair></Update></NodeBody></Node>";
}
string wrap(string const &node)
{
  string s = "<PlexilPlan><GlobalDeclarations>";
  for (int i = 0; i < 8; ++i) s += "<StateDeclaration><Name>s" + std::to_string(i) + "</Name><Return><Name>r</Name><Type>Integer</Type></Return></StateDeclaration>";
  s += "<CommandDeclaration><Name>req</Name><Return><Name>r</Name><Type>Integer</Type></Return><Parameter><Name>a</Name><Type>Integer</Type></Parameter></CommandDeclaration>";
  return s + "</GlobalDeclarations>" + node + "</PlexilPlan>";
}

bool addPlan(Plan &p)
{
  pugi::xml_document d;
  if (d.load_string(p.xml.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) inconclusive("harness: plan XML");
  p.added = true;
  p.addedAt = now();
  event("addPlan %s", p.id.c_str());
  bool r = W->app->addPlan(&d);
  if (!r) violation("plan-rejected", "addPlan refused a valid plan: " + p.id);
  p.accepted = true;
  return r;
}

// ---------------------------------------------------------------- user threads
void producer(int k)
{
  Watch &w = W->watch[k];
  P::State const st("s" + std::to_string(k), 0);
  while (w.posted < w.n) {
    unsigned burst = 1 + choose(3);
    for (unsigned i = 0; i < burst && w.posted < w.n; ++i) {
      ++w.posted;
      event("post s%d = %u", k, w.posted);
      if (choose(2)) W->intf->handleValueChange(st, P::Value((P::Integer) w.posted));
      else { P::Value v((P::Integer) w.posted); W->intf->handleValueChange(P::State("s" + std::to_string(k), 0), v); }
    }
    if (W->o.waits && W->running && choose(2)) {
      unsigned v = w.posted;
      bool wasUp = false;
      for (Plan &p : W->plans) if (p.started && p.xml.find("last" + std::to_string(k)) != string::npos) wasUp = true;
      event("producer %d waits for completion", k);
      W->intf->notifyAndWaitForCompletion();
      event("producer %d resumes", k);
      count("probe.waited");
      nontrivial();
      if (wasUp && !w.say && w.seen < v)
        violation("wait-early", "notifyAndWaitForCompletion returned although value " + std::to_string(v) + " of state " + std::to_string(k) + ", posted before the call, has not been processed (plan has seen " + std::to_string(w.seen) + ")");
    }
    else W->intf->notifyOfExternalEvent();
    switch (choose(4)) {
    case 1: sleepFor(choose(100) * 100 * US); break;
    case 2: sleepFor(choose(100) * 10 * MS); break;
    case 3: sim::yield(); break;
    default: break;
    }
  }
}
void user(string const &name, std::function<void()> f)
{
  ++W->live;
  spawn(name, [f] { f(); --W->live; });
}
void finishWaiter(int k)
{
  // what has been added by now must be finished when the call returns
  vector<Plan *> need;
  for (Plan &p : W->plans) if (p.accepted) need.push_back(&p);
  event("waiter %d waits for the plan", k);
  W->app->waitForPlanFinished();
  event("waiter %d: plan finished", k);
  count("probe.plan_wait_returned");
  nontrivial();
  for (Plan *p : need)
    if (!p->finished)
      violation("finish-early", "waitForPlanFinished returned while plan " + p->id + (p->started ? " was still executing" : " had not even started"));
}
string incomplete()
{
  string s;
  for (Plan &p : W->plans) if (p.added && !p.finished) s += " plan " + p.id + (p.started ? " has not finished;" : " never started;");
  for (auto &w : W->watch) if (w.second.n && w.second.seen < w.second.n && w.second.posted == w.second.n) s += " state " + std::to_string(w.first) + ": " + std::to_string(w.second.n) + " posted, " + std::to_string(w.second.seen) + " seen;";
  for (auto &q : W->req) if (q.second.got.size() < q.second.n) s += " request stream " + std::to_string(q.first) + ": " + std::to_string(q.second.sent.size()) + " sent, " + std::to_string(q.second.got.size()) + " of " + std::to_string(q.second.n) + " replies seen;";
  for (auto &t : W->tick) if (!t.second.fired) s += " wait for time +" + std::to_string(t.second.at - W->wall()) + " still waiting;";
  return s;
}
// everything asked for has happened, or a violation
void expect(const char *what, std::function<bool()> done, nanos within, const char *cls)
{
  if (waitUntil(what, done, now() + within))
    violation(cls, string("no progress: ") + what + " not reached " + std::to_string(within / SEC) + " s after the last input;" + incomplete() + " threads: " + threadDump());
}

void deployed(string const &prof)
{
  H h;
  W = &h;
  Opt &o = h.o;
  // ---- what this deployment looks like
  o.producers = choose(4);
  o.reqs = choose(3);
  o.plans = 1;
  o.adapters = choose(3);
  o.slow = chance(1, 5);
  o.itimer = choose(2);
  o.bkgnd = !chance(1, 4) || o.itimer;
  if (prof == "inputs") { o.producers = 1 + choose(4); o.reqs = choose(4); o.waits = chance(1, 4); o.upds = choose(2); }
  if (prof == "control") { o.producers = 1 + choose(3); o.suspend = true; o.ticks = choose(2); }
  if (prof == "wait") { o.producers = 1 + choose(4); o.waits = true; o.suspend = chance(1, 5); }
  if (prof == "finish") { o.producers = choose(2); o.reqs = choose(2); o.plans = 1 + choose(3); o.waiters = 1 + choose(2); o.suspend = chance(1, 6); o.ticks = choose(2); }
  if (prof == "timer") { o.producers = choose(2); o.reqs = choose(2); o.ticks = 1 + choose(4); o.jumps = chance(1, 3); o.suspend = chance(1, 8); o.tickUs = chance(1, 6) ? 20000 + choose(20) * 50000 : 0; }
  if (prof == "listener") { o.listeners = 1 + choose(3); o.plans = 1 + choose(3); o.upds = choose(2); o.ticks = choose(2); }
  if (choose(2)) params.memPreempt = 0;
  if (chance(1, 3)) { params.stallMean = 400; params.stallMax = (1 + choose(6)) * (prof == "control" ? 400 : 60) * MS; }
  if (chance(1, 2)) params.timerLate = (1 + choose(8)) * 25 * MS;

  // ---- plans
  unsigned wk = 0, qk = 0, tk = 0;
  double t0 = h.wall();
  for (unsigned i = 0; i < o.plans; ++i) {
    Plan p;
    p.id = "P" + std::to_string(i);
    string kids;
    unsigned nw = i + 1 == o.plans ? o.producers - wk : wk < o.producers ? choose(o.producers - wk + 1) : 0;
    for (unsigned j = 0; j < nw; ++j, ++wk) {
      Watch &w = h.watch[wk];
      w.n = 1 + choose(12);
      w.say = prof != "wait" && choose(3);
      kids += watcher(wk, w.n, w.say);
    }
    unsigned nq = i + 1 == o.plans ? o.reqs - qk : qk < o.reqs ? choose(o.reqs - qk + 1) : 0;
    for (unsigned j = 0; j < nq; ++j, ++qk) { Req &r = h.req[qk]; r.n = 1 + choose(6); kids += requester(qk, r.n); }
    unsigned nt = i + 1 == o.plans ? o.ticks - tk : tk < o.ticks ? choose(o.ticks - tk + 1) : 0;
    for (unsigned j = 0; j < nt; ++j, ++tk) {
      Tick &t = h.tick[tk];
      t.at = t0 + 0.001 * choose(4000);
      t.tol = 0.05 * (1 + choose(20));
      kids += ticker(tk, t.at, t.tol);
    }
    if (o.upds && choose(2)) kids += updater(i);
    if (kids.empty()) kids = "<Node NodeType=\"Empty\"><NodeId>E" + std::to_string(i) + "</NodeId></Node>";
    p.xml = wrap(list(p.id, "", "", kids));
    h.plans.push_back(p);
  }
  // ---- the application
  s_lst.clear();
  h.app.reset(P::makeExecApplication());
  P::registerSimAdapter();
  string cfg = string("<Interfaces><Adapter AdapterType=\"Time\"><Timebase Type=\"") + (o.itimer ? "Itimer" : "Posix") + "\"/></Adapter><Adapter AdapterType=\"SimA\"/>";
  for (unsigned i = 0; i < o.listeners; ++i) {
    cfg += "<Listener ListenerType=\"SimL\">";
    if (i && choose(3)) {
      string names;
      bool any = false;
      for (int k = 1; k < P::NO_NODE_STATE; ++k) if (choose(3) == 0) { names += string(any ? (choose(2) ? "," : ", ") : "") + P::nodeStateName((P::NodeState) k); any = true; }
      if (!any) names = "FINISHED";
      const char *tag = choose(2) ? "States" : "IgnoredStates";
      cfg += string("<Filter FilterType=\"NodeState\"><") + tag + ">" + names + "</" + tag + "></Filter>";
    }
    cfg += "</Listener>";
  }
  cfg += "</Interfaces>";
  static pugi::xml_document doc;
  doc.load_string(cfg.c_str());
  h.app->setRunExecInBkgndOnly(o.bkgnd);
  if (!h.app->initialize(doc.document_element())) inconclusive("initialize");
  s_tap.hub = h.app->listenerHub();
  h.app->exec()->setExecListener(&s_tap);
  if (!h.app->startInterfaces()) inconclusive("startInterfaces");
  // ---- users
  for (unsigned k = 0; k < wk; ++k) user("producer" + std::to_string(k), [k] { producer(k); });
  if (chance(1, 2)) sim::yield();
  unsigned shut = prof == "control" || prof == "finish" ? choose(3) : 0;
  h.running = true;
  if (!h.app->run()) inconclusive("run");
  unsigned shutLive = shut;
  for (unsigned i = 0; i < shut; ++i)
    spawn("shutdown-waiter" + std::to_string(i), [&shutLive] {
      W->app->waitForShutdown();
      event("waitForShutdown returned");
      if (!W->stopping) violation("shutdown-early", "waitForShutdown returned before the application was stopped");
      count("probe.shutdown_wait_returned");
      --shutLive;
    });
  vector<unsigned> waiters;
  unsigned waiterLive = 0;
  auto addWaiter = [&](int id) { ++waiterLive; spawn("plan-waiter" + std::to_string(id), [id, &waiterLive] { finishWaiter(id); --waiterLive; }); };
  // ---- the story
  unsigned next = 0, nw = 0, ops = 4 + choose(10);
  bool early = chance(1, 12) && o.bkgnd;   // stop although plans are still running
  for (unsigned i = 0; i < ops || next < h.plans.size(); ++i) {
    if (next < h.plans.size() && (i == 0 || i >= ops || choose(3) == 0)) {
      addPlan(h.plans[next++]);
      if (choose(2)) h.app->notifyExec();
      else if (!h.app->isSuspended() && o.waits) h.app->notifyAndWaitForCompletion();
      else h.intf->notifyOfExternalEvent();
      if (prof == "finish" && next == h.plans.size()) while (nw < o.waiters) addWaiter(nw++);
      else if (nw < o.waiters && choose(3) == 0) addWaiter(nw++);
      continue;
    }
    switch (weighted({4, 2, (unsigned) (o.suspend ? 4 : 0), (unsigned) (o.jumps ? 3 : 0), 1})) {
    case 0: sleepFor((nanos) choose(100) * (choose(2) ? 10 * MS : 200 * US)); break;
    case 1: h.app->notifyExec(); break;
    case 2: {
      event("suspend");
      count("fault.suspend");
      if (!h.app->suspend()) violation("suspend", "suspend() refused while running");
      nanos d = (nanos) (1 + choose(20)) * 5 * MS;
      waitIdle(now() + d);
      if (o.bkgnd && !h.inCmd) {
        unsigned s0 = h.steps;
        sleepFor((nanos) choose(60) * 5 * MS);
        if (choose(2)) h.app->notifyExec();
        sleepFor((nanos) choose(20) * MS);
        if (h.steps != s0) violation("suspended-but-running", "the executive stepped while it was suspended");
        nontrivial();
      }
      event("resume");
      if (!h.app->resume()) violation("resume", "resume() refused");
      if (h.app->isSuspended()) violation("resume", "still suspended after resume()");
      break;
    }
    case 3: {
      bool back = !choose(2);
      h.setBack = h.setBack || back;
      h.maxWall = std::max(h.maxWall, h.wall());
      jumpClock((back ? -1 : 1) * (int64_t) (1 + choose(30)) * 100 * (int64_t) MS);
      break;
    }
    default: h.intf->notifyOfExternalEvent();
    }
  }
  while (nw < o.waiters) addWaiter(nw++);
  // ---- everything asked for must happen
  if (early) event("stopping early");
  if (!early) {
    nanos slack = 60 * SEC;
    if (h.setBack) {
      // A wakeup which had come in time is spent when the clock is set back before
      // the exec looks at it: only from the next event on must the wait end.
      double last = 0;
      for (auto &t : h.tick) last = std::max(last, t.second.at + t.second.tol);
      double wait = last - h.wall();
      if (wait > 0) sleepFor((nanos) ((wait + 0.1) * 1e9));
      h.app->notifyExec();
    }
    expect("the end of the producers", [&h] { return h.live == 0; }, slack, "no-progress");
    expect("the end of all plans", [&h] {
      for (Plan &p : h.plans) if (!p.finished) return false;
      return true; }, slack, "no-progress");
    expect("the return of waitForPlanFinished", [&waiterLive] { return waiterLive == 0; }, slack, "wait-hangs");
    if (!incomplete().empty()) violation("lost-input", "all plans have finished but" + incomplete());
    if (!h.app->allPlansFinished()) {
      // the plan was seen to finish a moment ago: the step in progress still has to end
      waitIdle(now() + 100 * MS);
      if (!h.app->allPlansFinished()) violation("all-finished", "allPlansFinished() is false although every plan has finished");
    }
    for (auto &t : h.tick) {
      nontrivial();
      count("probe.timer_wait_passed");
      if (!params.stallMean && !o.jumps && !o.suspend && !o.slow) {
        Plan *pl = nullptr;
        for (Plan &p : h.plans) if (p.xml.find(">T" + std::to_string(t.first) + "<") != string::npos) pl = &p;
        double due = std::max(t.second.at, (double) pl->addedAt / 1e9 + (double) wallOffset() / 1e9);
        double at = ((double) t.second.due + (double) wallOffset()) / 1e9;
        double bound = due + t.second.tol + (double) params.timerLate / 1e9 + 0.5;
        if (at > bound)
          violation("timer-late", "a node waiting for time " + std::to_string(t.second.at - t0) + " (tolerance " + std::to_string(t.second.tol) + ") started at "
                    + std::to_string(at - t0) + ", although timers are at most " + std::to_string((double) params.timerLate / 1e9) + " s late");
      }
    }
    for (Lst *l : s_lst) {
      std::map<string, int> n;
      for (Obs &x : l->notes) ++n[x.kind + x.what];
      for (Plan &p : h.plans) if (n["P" + p.id] != 1)
        violation("listener-plan", "listener " + std::to_string(l->id) + " was told " + std::to_string(n["P" + p.id]) + " times of plan " + p.id);
      nontrivial();
    }
    if (wk || qk) nontrivial();
  }
  if (o.suspend && chance(1, 3)) { h.app->suspend(); event("suspend, then stop"); }
  else if (early && (o.waits || h.live)) { if (waitUntil("producers", [&h] { return h.live == 0; }, now() + 60 * SEC)) violation("no-progress", "producers blocked: " + threadDump()); }
  event("stop");
  h.stopping = true;
  h.app->stop();
  event("stopped");
  unsigned s1 = h.steps;
  if (shut) expect("the return of waitForShutdown", [&shutLive] { return shutLive == 0; }, 60 * SEC, "wait-hangs");
  waitIdle(now() + 3 * SEC);
  if (h.steps != s1 && o.bkgnd) violation("running-after-stop", "the executive stepped after stop() returned");
  if (!waiterLive) {
    h.app.reset();
    event("destroyed");
  }
  else h.app.release();
  simtime((double) (now() - 1000 * SEC) / 1e9);
  cover(scheduleHash());
  finish();
}

// ---- plans and libraries, sound and damaged, from several threads
struct Op { unsigned b, e; };            // when it was called and returned (by a counter of such moments)
struct Pl {
  vector<string> badPlans, badLibs;
  unsigned clock = 0;
  struct LibV { int v; Op t; };
  vector<LibV> lib[2];
  struct PlanV { Op t; int call; bool accepted = false, ended = false; unsigned mine = 0; vector<int> got[2]; unsigned depth = 0; };
  vector<PlanV> plans;
  unsigned libNotes = 0, refusals = 0;
};
Pl *PL;
string libXml(int k, int v, bool nest)
{
  string K = std::to_string(k), n = "Lib" + K;
  string kids = command(n + "c", "", "lib", iv(k) + iv(v) + ivar("x"), "");
  if (nest) kids += "<Node NodeType=\"LibraryNodeCall\"><NodeId>" + n + "n</NodeId><NodeBody><LibraryNodeCall><NodeId>Lib1</NodeId><Alias><NodeParameter>x</NodeParameter>" + ivar("x") + "</Alias></LibraryNodeCall></NodeBody></Node>";
  return "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>" + n + "</NodeId><Interface><In>" + decl("x", 0, false) + "</In></Interface><NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node></PlexilPlan>";
}
string planXml(int n, int call)
{
  string N = std::to_string(n);
  string kids = command("M" + N, "", "mine", iv(n), "");
  if (call >= 0) kids += "<Node NodeType=\"LibraryNodeCall\"><NodeId>C" + N + "</NodeId><NodeBody><LibraryNodeCall><NodeId>Lib" + std::to_string(call) + "</NodeId><Alias><NodeParameter>x</NodeParameter>" + ivar("me") + "</Alias></LibraryNodeCall></NodeBody></Node>";
  if (n & 1) kids += assign("A" + N, "<StartCondition>" + finished("M" + N) + "</StartCondition>", "me", ivar("me"));
  return "<PlexilPlan>" + list("P" + N, "", decl("me", n), kids) + "</PlexilPlan>";
}
void plCommand(string const &n, vector<P::Value> const &a)
{
  NoPreempt np;
  event("command %s %d", n.c_str(), intOf(a[0]));
  if (n == "mine") { ++PL->plans.at(intOf(a[0])).mine; return; }
  PL->plans.at(intOf(a[2])).got[intOf(a[0])].push_back(intOf(a[1]));
}
void plEnded(string const &id) { PL->plans.at(atoi(id.c_str() + 1)).ended = true; }
void plCheckVersion(int k, int v, Op const &r, string const &who)
{
  Pl::LibV *w = nullptr;
  for (auto &x : PL->lib[k]) if (x.v == v) w = &x;
  if (!w) violation("library-invented", who + " ran version " + std::to_string(v) + " of a library, which was never added");
  if (w->t.b > r.e) violation("library-too-new", who + " ran a version of a library which was added after the plan");
  for (auto &x : PL->lib[k])
    if (x.t.b > w->t.e && x.t.e < r.b)
      violation("library-stale", who + " ran version " + std::to_string(v) + " of a library although version " + std::to_string(x.v) + " had replaced it before the plan was added");
}
void plThread(int t)
{
  unsigned ops = 2 + choose(6);
  for (unsigned i = 0; i < ops; ++i) {
    switch (choose(7)) {
    case 0: case 1: case 2: {
      int n = PL->plans.size();
      PL->plans.emplace_back();
      int call = (int) choose(3) - 1;
      PL->plans[n].call = call;
      pugi::xml_document d;
      if (d.load_string(planXml(n, call).c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) inconclusive("harness: plan XML");
      PL->plans[n].t.b = ++PL->clock;
      event("thread %d adds plan %d", t, n);
      bool r = false;
      try { r = W->app->addPlan(&d); }
      catch (std::exception const &e) { violation("plan-throws", string("addPlan ended with an exception for a valid plan: ") + e.what()); }
      PL->plans[n].t.e = ++PL->clock;
      PL->plans[n].accepted = r;
      event("plan %d added", n);
      if (!r) violation("plan-rejected", "addPlan refused a valid plan");
      break;
    }
    case 3: {
      int k = choose(2), v = W->token++;
      pugi::xml_document *d = new pugi::xml_document;
      if (d->load_string(libXml(k, v, k == 0 && choose(2)).c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) inconclusive("harness: library XML");
      size_t at = PL->lib[k].size();
      PL->lib[k].push_back(Pl::LibV{v, Op{++PL->clock, ~0u}});
      event("thread %d adds version %d of Lib%d", t, v, k);
      bool r = false;
      try { r = W->app->addLibrary(d); }
      catch (std::exception const &e) { violation("library-throws", string("addLibrary ended with an exception for a valid library: ") + e.what()); }
      PL->lib[k][at].t.e = ++PL->clock;
      event("version %d added", v);
      if (!r) violation("library-rejected", "addLibrary refused a valid library");
      ++PL->libNotes;
      count("probe.library_replaced");
      break;
    }
    case 4: case 5: {
      bool lib = choose(2);
      auto &l = lib ? PL->badLibs : PL->badPlans;
      if (l.empty()) break;
      string const &x = l[choose(l.size())];
      pugi::xml_document *d = new pugi::xml_document;
      if (d->load_string(x.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) { delete d; break; }
      event("thread %d adds a damaged %s", t, lib ? "library" : "plan");
      bool r = false;
      try { r = lib ? W->app->addLibrary(d) : W->app->addPlan(d); }
      catch (std::exception const &e) {
        violation(lib ? "library-throws" : "plan-throws", string(lib ? "addLibrary" : "addPlan") + " ended with an exception for a damaged document: " + e.what() + ": " + x.substr(0, 1200));
      }
      if (r) violation(lib ? "library-accepted" : "plan-accepted", string(lib ? "addLibrary" : "addPlan") + " reported success for a damaged document: " + x.substr(0, 1200));
      if (!lib) delete d;
      ++PL->refusals;
      count(lib ? "fault.damaged_library" : "fault.damaged_plan");
      break;
    }
    default: {
      bool r = true;
      try { r = W->app->loadLibrary("/nonexistent/NoSuchLibrary"); }
      catch (std::exception const &e) { violation("library-throws", string("loadLibrary ended with an exception: ") + e.what()); }
      if (r) violation("library-accepted", "loadLibrary reported success for a library which does not exist");
      count("fault.missing_library");
    }
    }
    if (choose(3)) W->app->notifyExec();
    if (choose(3) == 0) sleepFor((nanos) choose(30) * MS);
  }
}
void plansWorld()
{
  H h;
  W = &h;
  Pl pl;
  PL = &pl;
  if (choose(3) == 0) params.memPreempt = 0;
  if (chance(1, 3)) { params.stallMean = 400; params.stallMax = (1 + choose(6)) * 20 * MS; }
  h.o.adapters = choose(3);
  h.o.listeners = choose(2);
  auto pick = [](unsigned n) { return choose(n); };
  auto quietly = [](string const &x, bool lib) {   // is it refused?
    pugi::xml_document *d = new pugi::xml_document;
    if (d->load_string(x.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) { delete d; return false; }
    try {
      if (lib) return !P::loadLibraryDocument(d);
      P::NodeImpl *n = P::parsePlan(d->document_element());
      delete n;
      delete d;
      return false;
    }
    catch (std::exception const &) { return true; }
  };
  s_lst.clear();
  h.app.reset(P::makeExecApplication());
  P::registerSimAdapter();
  string cfg = "<Interfaces><Adapter AdapterType=\"Time\"><Timebase Type=\"Posix\"/></Adapter><Adapter AdapterType=\"SimA\"/>";
  for (unsigned i = 0; i < h.o.listeners; ++i) cfg += "<Listener ListenerType=\"SimL\"/>";
  cfg += "</Interfaces>";
  static pugi::xml_document doc;
  doc.load_string(cfg.c_str());
  if (!h.app->initialize(doc.document_element())) inconclusive("initialize");
  s_tap.hub = h.app->listenerHub();
  h.app->exec()->setExecListener(&s_tap);
  {
    NoPreempt np;
    for (int k = 1; k >= 0; --k) {
      for (unsigned i = choose(4); i--;) {
        string x = planmut::damage(libXml(k, 1, k == 0 && choose(2)), 1 + choose(2), pick);
        if (quietly(x, true)) pl.badLibs.push_back(x);
      }
    }
    for (int k = 1; k >= 0; --k) {   // the right ones replace damaged ones which were taken
      int v = W->token++;
      if (quietly(libXml(k, v, k == 0 && choose(2)), true)) inconclusive("harness: library");
      pl.lib[k].push_back(Pl::LibV{v, Op{0, 0}});
    }
    for (unsigned i = choose(6); i--;) {
      string x = planmut::damage(planXml(1000 + (int) choose(2), (int) choose(3) - 1), 1 + choose(2), pick);
      if (quietly(x, false)) pl.badPlans.push_back(x);
    }
  }
  if (!h.app->startInterfaces()) inconclusive("startInterfaces");
  if (!h.app->run()) inconclusive("run");
  h.running = true;
  unsigned nt = 1 + choose(3);
  for (unsigned t = 0; t < nt; ++t) user("user" + std::to_string(t), [t] { plThread(t); });
  expect("the end of the users", [&h] { return h.live == 0; }, 60 * SEC, "no-progress");
  h.app->notifyExec();
  expect("the end of all plans", [&] {
    for (auto &p : pl.plans) if (!p.ended) return false;
    return true; }, 60 * SEC, "no-progress");
  waitIdle(now() + 5 * SEC);
  for (size_t n = 0; n < pl.plans.size(); ++n) {
    auto &p = pl.plans[n];
    string who = "plan " + std::to_string(n);
    if (p.mine != 1) violation("command-count", who + " sent its command " + std::to_string(p.mine) + " times");
    size_t want0 = p.call == 0;
    if (p.got[0].size() != want0) violation("command-count", who + " ran the body of Lib0 " + std::to_string(p.got[0].size()) + " times instead of " + std::to_string(want0));
    for (int k = 0; k < 2; ++k) for (int v : p.got[k]) plCheckVersion(k, v, p.t, who);
    if (p.call == 1 && p.got[1].size() != 1) violation("command-count", who + " ran the body of Lib1 " + std::to_string(p.got[1].size()) + " times");
    if (p.got[1].size() > 1) violation("command-count", who + " ran the body of Lib1 " + std::to_string(p.got[1].size()) + " times");
    if (p.call >= 0) nontrivial();
  }
  for (Lst *l : s_lst) {
    std::map<char, unsigned> n;
    for (Obs &x : l->notes) ++n[x.kind];
    if (n['P'] != pl.plans.size()) violation("listener-plan", "a listener was told of " + std::to_string(n['P']) + " plans, " + std::to_string(pl.plans.size()) + " were accepted");
    if (n['L'] != pl.libNotes) violation("listener-plan", "a listener was told of " + std::to_string(n['L']) + " libraries, " + std::to_string(pl.libNotes) + " were accepted");
  }
  if (pl.refusals) nontrivial();
  h.stopping = true;
  h.app->stop();
  waitIdle(now() + SEC);
  h.app.reset();
  simtime((double) (now() - 1000 * SEC) / 1e9);
  cover(scheduleHash());
  finish();
}

#include "world_disp.hh"
#include "world_launch.hh"

// ---- the input queue by itself
void queueWorld()
{
  if (choose(2)) params.memPreempt = 0;
  if (chance(1, 4)) { params.stallMean = 200; params.stallMax = 50 * MS; }
  static P::SerializedInputQueue *q;
  q = new P::SerializedInputQueue;
  struct Prod { unsigned n = 0, begun = 0, done = 0, next = 0, mayLose = 0; };
  static vector<Prod> pr;
  static std::set<P::QueueEntry *> held;
  static unsigned live;
  static bool flushes;
  flushes = chance(1, 4);
  pr.assign(1 + choose(4), Prod());
  held.clear();
  live = pr.size();
  for (unsigned k = 0; k < pr.size(); ++k) {
    pr[k].n = 1 + choose(12);
    spawn("producer" + std::to_string(k), [k] {
      Prod &p = pr[k];
      for (unsigned i = 0; i < p.n; ++i) {
        P::QueueEntry *e = q->allocate();
        {
          NoPreempt np;
          if (!e) violation("queue-null", "allocate() returned a null pointer");
          if (!held.insert(e).second && !flushes) violation("queue-entry-shared", "allocate() returned an entry which is still in use");
        }
        if ((i + k) % 3) e->initForLookup(P::State("s" + std::to_string(k)), P::Value((P::Integer) i));
        else e->initForMark(k * 1000 + i);
        { NoPreempt np; ++p.begun; event("put %u.%u", k, i); }
        q->put(e);
        { NoPreempt np; ++p.done; }
        switch (choose(4)) {
        case 0: sim::yield(); break;
        case 1: sleepFor(choose(20) * MS); break;
        default: break;
        }
      }
      --live;
    });
  }
  auto take = [](P::QueueEntry *e) {
    unsigned k = 99, i = 0;
    if (e->type == P::Q_MARK) { k = e->sequence / 1000; i = e->sequence % 1000; }
    else if (e->type == P::Q_LOOKUP && e->state) {
      k = atoi(e->state->name().c_str() + 1);
      P::Integer v = -1;
      if (!e->value.getValue(v)) violation("queue-corrupt", "an entry lost its value");
      i = v;
    }
    if (k >= pr.size() || ((i + k) % 3 != 0) != (e->type == P::Q_LOOKUP)) violation("queue-corrupt", "an entry of type " + std::to_string(e->type) + " came out which nobody put in");
    Prod &p = pr[k];
    event("get %u.%u", k, i);
    if (i >= p.begun) violation("queue-invented", "entry " + std::to_string(k) + "." + std::to_string(i) + " came out before it was put in");
    if (i < p.next) violation("queue-order", "entry " + std::to_string(k) + "." + std::to_string(i) + " came out again, or after entry " + std::to_string(p.next - 1) + " of the same producer");
    if (i > p.next && i > p.mayLose) violation("queue-lost", "entry " + std::to_string(k) + "." + std::to_string(std::max(p.next, p.mayLose)) + " never came out; " + std::to_string(i) + " did");
    p.next = i + 1;
    nontrivial();
  };
  unsigned idle = 0;
  for (;;) {
    bool owed, last;
    { NoPreempt np;
      last = !live;
      owed = false;
      for (Prod &p : pr) if (p.done > std::max(p.next, p.mayLose)) owed = true;
    }
    if (chance(1, 6) && q->isEmpty() && owed) violation("queue-empty", "isEmpty() although entries which were put in have not come out");
    if (flushes && chance(1, 10)) {
      event("flush");
      q->flush();
      NoPreempt np;
      count("fault.flush");
      // what was being put in until now may be gone; which entries still are in use is not known
      for (Prod &p : pr) p.mayLose = p.begun;
      held.clear();
      continue;
    }
    P::QueueEntry *e = q->get();
    if (!e) {
      if (owed) violation("queue-lost", "get() found nothing although entries which were put in have not come out");
      if (last) break;
      if (++idle > 4) { sleepFor(MS * choose(10)); idle = 0; }
      continue;
    }
    { NoPreempt np; take(e); held.erase(e); }
    q->release(e);
  }
  for (unsigned k = 0; k < pr.size(); ++k)
    if (std::max(pr[k].next, pr[k].mayLose) != pr[k].n) violation("queue-lost", "the last entries of producer " + std::to_string(k) + " never came out");
  if (!q->isEmpty()) violation("queue-empty", "not empty after everything came out");
  delete q;
  simtime((double) (now() - 1000 * SEC) / 1e9);
  cover(scheduleHash());
  finish();
}

// ---- the timebases by themselves
void timebaseWorld()
{
  if (choose(2)) params.memPreempt = 0;
  if (chance(1, 2)) params.timerLate = (1 + choose(8)) * 25 * MS;
  bool itimer = choose(2);
  static unsigned wakes, inWake;
  static nanos lastWake;
  wakes = inWake = 0;
  initTimebaseFactories();
  P::TimebaseFactory const *f = P::TimebaseFactory::get(itimer ? "Itimer" : "Posix");
  if (!f) inconclusive("no such timebase");
  P::Timebase *tb = f->create([] { ++inWake; ++wakes; lastWake = now(); event("wakeup"); sim::yield(); --inWake; });
  auto wall = [] { return ((double) now() + (double) wallOffset()) / 1e9; };
  unsigned tick = chance(1, 3) ? (1 + choose(30)) * 10000 + choose(2) * choose(10000) : 0;
  if (tick && chance(1, 2)) tick += 1000000 * choose(3);
  tb->setTickInterval(tick);
  if (tb->getTickInterval() != tick) violation("tick-interval", "getTickInterval() differs from what was set");
  for (unsigned life = 1 + choose(3), l = 0; l < life; ++l) {
    if (l) { event("restart"); count("probe.restart"); }
    tb->start();
    if (chance(1, 4)) tb->start();
    double t = tb->getTime();
    if (std::abs(t - wall()) > 1e-3) violation("time-wrong", "getTime() is " + std::to_string(t - wall()) + " s off");
    if (tick) {
      nanos s = now(), iv = tick * US;
      unsigned w0 = wakes, n = 2 + choose(6);
      if (choose(2)) tb->setTimer(wall() + 0.001);  // ignored
      sleepFor(n * iv + iv / 2);
      sleepFor(params.timerLate);
      unsigned w = wakes - w0, most = (now() - s) / iv + 1;
      // an expiry may be late by timerLate, and signals which are pending merge
      unsigned least = params.timerLate * 2 < iv ? n - 1 : 1;
      if (w < least || w > most) violation("tick", "tick interval " + std::to_string(tick) + " us: " + std::to_string(w) + " wakeups in " + std::to_string((double) (now() - s) / 1e9) + " s");
      nontrivial();
      count("probe.ticks", w);
    }
    else for (unsigned i = 0, n = 1 + choose(5); i < n; ++i) {
      double d = wall();
      unsigned kind = choose(5);
      if (kind == 0) d -= choose(1000) * 1e-6;                 // past or just now
      else if (kind == 1) d += choose(40) * 1e-6 + choose(10) * 1e-7;
      else if (kind == 2) d += choose(2000) * 1e-3;
      else if (kind == 3) d = std::floor(d) + 1 + choose(3);   // a whole second
      else d += choose(1000000) * 1e-6;
      unsigned w0 = wakes;
      event("setTimer %.6f", d - 1.7e9);
      tb->setTimer(d);
      bool again = wakes == w0 && chance(1, 4);
      if (again) {
        d += (choose(2) ? 1 : -1) * (double) choose(500) * 1e-3;
        w0 = wakes;
        event("setTimer %.6f instead", d - 1.7e9);
        tb->setTimer(d);
      }
      nanos limit = d > wall() ? (nanos) ((d - wall()) * 1e9) : 0;
      limit += params.timerLate + 20 * MS;
      nanos end = now() + limit;
      waitUntil("wakeup", [&w0] { return wakes != w0; }, end);
      if (wakes == w0) violation("timer-lost", "no wakeup for the deadline " + std::to_string(d) + ", now " + std::to_string(wall()) + ", timers are at most " + std::to_string((double) params.timerLate / 1e9) + " s late");
      // an expiry of the deadline replaced may come first; the one asked for must follow
      double at = ((double) lastWake + (double) wallOffset()) / 1e9;
      if (at < d - 1e-6) {
        if (!again) violation("timer-early", "woken at " + std::to_string(at) + " for the deadline " + std::to_string(d));
        w0 = wakes;
        waitUntil("wakeup", [&w0] { return wakes != w0; }, end);
        if (wakes == w0) violation("timer-lost", "no wakeup for the deadline " + std::to_string(d) + " set instead of another");
      }
      nontrivial();
      count("probe.deadlines");
      waitIdle(now() + params.timerLate + 20 * MS);  // wakeups of a replaced deadline which had expired
    }
    if (choose(2) && !tick) tb->setTimer(wall() + choose(100) * 1e-3);
    tb->stop();
    if (chance(1, 4)) tb->stop();
    event("stopped");
    waitIdle(now() + 1 * MS);       // a wakeup which was under way ends
    unsigned w0 = wakes;
    sleepFor(choose(5) * SEC + 500 * MS);
    if (wakes != w0) violation("wakeup-after-stop", "woken after stop()");
  }
  delete tb;
  simtime((double) (now() - 1000 * SEC) / 1e9);
  cover(scheduleHash());
  finish();
}
} // namespace
namespace PLEXIL {
void registerSimAdapter()
{
  REGISTER_ADAPTER(SimAdapter, "SimA");
  REGISTER_ADAPTER(DAdapter, "SimD")
  REGISTER_ADAPTER(LAdapter, "SimX")
  REGISTER_EXEC_LISTENER(DListener, "SimDL")
  REGISTER_EXEC_LISTENER(Lst, "SimL");
}
}
int main(int argc, char **argv) { return sim::runnerMain(argc, argv, "app", [] {
  sim::start();
  string p = sim::profile;
  if (p == "queue") queueWorld();
  else if (p == "timebase") timebaseWorld();
  else if (p == "plans") plansWorld();
  else if (p == "dispatch") dispatchWorld();
  else if (p == "launch") launchWorld();
  else deployed(p);
}); }
