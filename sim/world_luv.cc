// W5: the viewer interface. The real LuvListener inside the real application,
// over simulated TCP; the viewer is the simulator's and may be slow, or vanish.
#include "simnet.hh"

#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "Command.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "ExecListenerHub.hh"
#include "Expression.hh"
#include "InterfaceAdapter.hh"
#include "LookupReceiver.hh"
#include "NodeConstants.hh"
#include "NodeImpl.hh"
#include "NodeTransition.hh"
#include "PlexilExec.hh"
#include "State.hh"
#include "pugixml.hpp"

#include <deque>
#include <map>
#include <memory>
#include <sstream>
#include <vector>

namespace P = PLEXIL;
namespace PLEXIL { void registerSimAdapter(); }
using namespace sim;
using std::string;
using std::vector;

namespace {
const char EOT = 4;
struct Kind { const char *type; bool array; };
struct Update { string kind, state, outcome, failure, path, name, value; vector<std::pair<string, string>> conds; };
struct Add { string xml; bool library = false, told = false; int root = 0; };
struct H {
  std::unique_ptr<P::ExecApplication> app;
  P::AdapterExecInterface *intf = nullptr;
  vector<Update> step;             // what happened in this step
  std::deque<Update> due;          // what the viewer has still to be told
  vector<Add> adds;
  std::map<string, int> addOf;     // root node or library name -> index of its addition
  unsigned plansLeft = 0, epoch = 0, serial = 0;
  bool block = false, stopping = false, toldOnce = false;
  // the viewer
  net::Peer *peer = nullptr;
  bool refuse = false, gone = false, connected = false, infoSeen = false, owed = false;
  string buf;
  unsigned acks = 0, msgs = 0;
};
H *W;

// ------------------------------------------------------------------- the plans
string esc(string const &s) { string o; for (char c : s) if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += "&gt;"; else o += c; return o; }
string tag(const char *t, string const &x) { return string("<") + t + ">" + x + "</" + t + ">"; }
string iv(long i) { return tag("IntegerValue", std::to_string(i)); }
string finished(string const &id) { return "<EQInternal><NodeStateVariable><NodeId>" + id + "</NodeId></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>"; }
string lookup(string const &n) { return "<LookupOnChange><Name><StringValue>" + n + "</StringValue></Name></LookupOnChange>"; }
string word()
{
  static const char *const A[] = {"a", "B", "7", " ", "<", "&", ">", "\"", "'", "&lt;", "]]>", "-", "</Value>", "_", "x y", "\xc3\xa9"};
  string s;
  for (unsigned n = choose(7); n--;) s += A[choose(sizeof A / sizeof *A)];
  return s;
}
const char *const TY[] = {"Integer", "Real", "Boolean", "String"};
string lit(int t)
{
  switch (t) {
  case 0: return iv((long) choose(1000) - 500);
  case 1: return tag("RealValue", std::to_string((long) choose(100)) + (choose(2) ? ".5" : ".25"));
  case 2: return tag("BooleanValue", choose(2) ? "true" : "false");
  default: return tag("StringValue", esc(word()));
  }
}
string rhs(int t, string const &x) { return tag(t < 2 ? "NumericRHS" : t == 2 ? "BooleanRHS" : "StringRHS", x); }
string scalar(int t, string const &n) { return tag((string(TY[t]) + "Variable").c_str(), n); }
struct Scope { vector<std::pair<string, int>> vars, arrays; };
string node(const char *type, string const &id, string const &conds, string const &decls, string const &body)
{
  return string("<Node NodeType=\"") + type + "\"><NodeId>" + id + "</NodeId>" + conds + (decls.empty() ? "" : tag("VariableDeclarations", decls)) + (body.empty() ? "" : tag("NodeBody", body)) + "</Node>";
}
string cond() { return choose(2) ? tag("BooleanValue", choose(4) ? "true" : "false") : "<GE>" + lookup("epoch") + iv(choose(3)) + "</GE>"; }
string gen(int depth, Scope sc, string const &start, string &id, unsigned &budget)
{
  id = "N" + std::to_string(W->serial++) + (chance(1, 6) ? "_x-y.z" : "");
  string c = start.empty() ? "" : tag("StartCondition", start), decls;
  if (chance(1, 5)) c += tag("PreCondition", cond());
  if (chance(1, 5)) c += tag("PostCondition", cond());
  if (chance(1, 8)) c += tag("SkipCondition", "<AND>" + (start.empty() ? string() : start) + cond() + "</AND>");
  if (chance(1, 8)) c += tag("InvariantCondition", cond());
  if (chance(1, 8)) c += tag("ExitCondition", cond());
  if (budget) --budget;
  unsigned kind = depth > 0 && budget ? choose(6) : 1 + choose(4);
  if (kind == 0 || (kind == 5 && depth > 0)) {
    for (unsigned n = choose(3); n--;) {
      int t = choose(4);
      string v = "v" + std::to_string(W->serial++);
      if (chance(1, 4)) {
        decls += "<DeclareArray><Name>" + v + "</Name><Type>" + TY[t] + "</Type><MaxSize>4</MaxSize></DeclareArray>";
        sc.arrays.push_back({v, t});
      }
      else {
        decls += "<DeclareVariable><Name>" + v + "</Name><Type>" + TY[t] + "</Type>" + (choose(2) ? tag("InitialValue", lit(t)) : "") + "</DeclareVariable>";
        sc.vars.push_back({v, t});
      }
    }
    string loop;
    if (chance(1, 4)) {
      loop = "i" + std::to_string(W->serial++);
      decls += "<DeclareVariable><Name>" + loop + "</Name><Type>Integer</Type><InitialValue>" + iv(0) + "</InitialValue></DeclareVariable>";
    }
    string kids, prev, k;
    for (unsigned n = 1 + choose(3); n--;) {
      kids += gen(depth - 1, sc, prev.empty() || choose(3) == 0 ? "" : finished(prev), k, budget);
      prev = k;
    }
    if (!loop.empty()) {
      // the count is kept outside, so that it survives the iterations
      string me = id, outer = "L" + std::to_string(W->serial++), cnt = loop + "c";
      string count = node("Assignment", cnt, "", "", tag("Assignment", scalar(0, loop) + tag("NumericRHS", "<ADD>" + scalar(0, loop) + iv(1) + "</ADD>")));
      string more = "<LT>" + scalar(0, loop) + iv(1 + choose(3)) + "</LT>";
      string body = node("NodeList", me + "b", tag("RepeatCondition", more), "", tag("NodeList", count + kids));
      return node("NodeList", id, c, decls, tag("NodeList", body));
    }
    return node("NodeList", id, c, decls, tag("NodeList", kids));
  }
  if (kind == 1 && !sc.vars.empty()) {
    auto &v = sc.vars[choose(sc.vars.size())];
    return node("Assignment", id, c + tag("Priority", std::to_string(W->serial)), "", tag("Assignment", scalar(v.second, v.first) + rhs(v.second, lit(v.second))));
  }
  if (kind == 2 && !sc.arrays.empty()) {
    auto &v = sc.arrays[choose(sc.arrays.size())];
    return node("Assignment", id, c + tag("Priority", std::to_string(W->serial)), "",
                tag("Assignment", tag("ArrayElement", tag("Name", v.first) + tag("Index", iv(choose(4)))) + rhs(v.second, lit(v.second))));
  }
  if (kind == 3) {
    string ret;
    for (auto &v : sc.vars) if (v.second == 3 && choose(2)) { ret = scalar(3, v.first); break; }
    return node("Command", id, c, "", tag("Command", ret + "<Name><StringValue>" + (ret.empty() ? "work" : "ask") + "</StringValue></Name><Arguments>" + iv(1) + "</Arguments>"));
  }
  return node("Empty", id, c, "", "");
}
string plan(string &name, bool library)
{
  unsigned budget = 2 + choose(8);
  string id, kids = gen(2, {}, "", id, budget);
  name = (library ? "Lib" : "P") + std::to_string(W->serial++);
  string x = node("NodeList", name, "", "", tag("NodeList", kids));
  return "<PlexilPlan><GlobalDeclarations><StateDeclaration><Name>epoch</Name><Return><Name>r</Name><Type>Integer</Type></Return></StateDeclaration></GlobalDeclarations>" + x + "</PlexilPlan>";
}

// ------------------------------------------------------------------- the oracle
string text(pugi::xml_node n, const char *t) { return n.child(t).text().get(); }
string raw(pugi::xml_node n) { std::ostringstream s; n.print(s, "", pugi::format_raw | pugi::format_no_declaration); return s.str(); }
string pathOf(P::Node const *n) { return (n->getParent() ? pathOf(n->getParent()) + "/" : "") + n->getNodeId(); }
string show(Update const &u)
{
  if (u.kind == "assignment") return u.name + " := " + u.value;
  string s = u.path + " " + u.state + " " + u.outcome + " " + u.failure;
  for (auto &c : u.conds) s += " " + c.first + "=" + c.second;
  return s;
}
bool same(Update const &a, Update const &b)
{
  return a.kind == b.kind && a.state == b.state && a.outcome == b.outcome && a.failure == b.failure && a.path == b.path && a.name == b.name && a.value == b.value && a.conds == b.conds;
}
void message(string const &m)
{
  NoPreempt np;
  ++W->msgs;
  event("viewer reads %.60s", m.c_str());
  pugi::xml_document d;
  if (d.load_buffer(m.data(), m.size(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok || d.first_child().next_sibling())
    violation("malformed", "the viewer got a message which is not one XML element: " + m.substr(0, 300));
  if (W->block && W->msgs > W->acks + 1) violation("not-waiting", "the executive sent a message before the viewer acknowledged the one before");
  pugi::xml_node e = d.first_child();
  string t = e.name();
  if (W->infoSeen && t != "PlexilPlan" && t != "PlexilLibrary") violation("stream-order", "the plan information is followed by " + t + " instead of the plan");
  nontrivial();
  if (t == "PlanInfo") {
    if (text(e, "ViewerBlocks") != (W->block ? "true" : "false")) violation("wrong-info", "the plan information says ViewerBlocks is " + text(e, "ViewerBlocks"));
    W->infoSeen = true;
    return;
  }
  if (t == "PlexilPlan" || t == "PlexilLibrary") {
    if (!W->infoSeen) violation("stream-order", "a plan comes without plan information");
    W->infoSeen = false;
    bool lib = t == "PlexilLibrary";
    string x = raw(lib ? e.first_child() : e);
    for (Add &a : W->adds)
      if (!a.told && a.library == lib && a.xml == x) { a.told = true; count("probe.add_told"); return; }
    violation("wrong-plan", "the viewer was told of a plan or library nobody added: " + x.substr(0, 300));
  }
  Update u;
  if (t == "NodeStateUpdate") {
    u.kind = "transition";
    u.state = text(e, "NodeState");
    u.outcome = text(e, "NodeOutcome");
    u.failure = text(e, "NodeFailureType");
    string root;
    for (pugi::xml_node n : e.child("NodePath").children("NodeId")) { if (root.empty()) root = n.text().get(); u.path += (u.path.empty() ? "" : "/") + string(n.text().get()); }
    for (pugi::xml_node n : e.child("Conditions").children()) u.conds.push_back({n.name(), n.text().get()});
    auto i = W->addOf.find(root);
    if (i != W->addOf.end() && !W->adds[i->second].told) violation("stream-order", "the viewer was told of a transition of " + root + " before it was told of the plan");
  }
  else if (t == "Assignment") {
    u.kind = "assignment";
    u.name = e.child("Variable").child("VariableName").text().get();
    u.value = e.child("Value").text().get();
  }
  else violation("malformed", "the viewer got an unknown message " + t);
  if (W->due.empty()) violation("invented", "the viewer was told of " + show(u) + ", which did not happen");
  if (!same(W->due.front(), u)) violation("stream-wrong", "the viewer was told of [" + show(u) + "] where [" + show(W->due.front()) + "] happened");
  W->due.pop_front();
  count("probe.update_told");
}
struct Tap final : P::ExecListenerBase {
  P::ExecListenerBase *hub;
  struct Tr { P::NodeTransition first; P::NodeOutcome o; P::FailureType f; };   // as they were when it happened
  vector<Tr> ts;
  struct Asg { string name; P::Value v; };
  vector<Asg> as;
  void notifyOfTransitions(vector<P::NodeTransition> const &v) override
  {
    note(v);
    hub->notifyOfTransitions(v);
  }
  void note(vector<P::NodeTransition> const &v)
  {
    NoPreempt np;
    for (auto &t : v) {
      event("%s -> %s", t.node->getNodeId().c_str(), P::nodeStateName(t.newState).c_str());
      ts.push_back({t, t.node->getOutcome(), t.node->getFailureType()});
      if (!t.node->getParent() && t.newState == P::FINISHED_STATE) --W->plansLeft;
    }
  }
  void notifyOfAssignment(P::Expression const *d, string const &n, P::Value const &v) override
  {
    { NoPreempt np; as.push_back({n, v}); event("%s := %s", n.c_str(), v.valueToString().c_str()); }
    hub->notifyOfAssignment(d, n, v);
  }
  void stepComplete(unsigned c) override
  {
    {
      NoPreempt np;
      for (auto &p : ts) {
        Update u;
        u.kind = "transition";
        u.state = P::nodeStateName(p.first.newState);
        if (p.o != P::NO_OUTCOME) u.outcome = P::outcomeName(p.o);
        if (p.f != P::NO_FAILURE) u.failure = P::failureTypeName(p.f);
        u.path = pathOf(p.first.node);
        P::NodeImpl const *n = dynamic_cast<P::NodeImpl const *>(p.first.node);
        for (size_t i = 0; i < P::NodeImpl::conditionIndexMax; ++i)
          if (P::Expression const *x = n->getCondition(i)) u.conds.push_back({P::NodeImpl::ALL_CONDITIONS[i], x->valueString()});
        W->due.push_back(u);
      }
      for (auto &a : as) {
        Update u;
        u.kind = "assignment";
        u.name = a.name;
        u.value = a.v.valueToString();
        W->due.push_back(u);
      }
      ts.clear();
      as.clear();
    }
    hub->stepComplete(c);
  }
};
Tap s_tap;

void execute(P::Command *cmd, P::AdapterExecInterface *f)
{
  string n = cmd->getName();
  if (n == "ask") { f->handleCommandAck(cmd, P::COMMAND_SENT_TO_SYSTEM); f->handleCommandReturn(cmd, P::Value(word())); }
  else f->handleCommandAck(cmd, choose(4) ? P::COMMAND_SUCCESS : P::COMMAND_FAILED);
  f->notifyOfExternalEvent();
}
struct SimAdapter final : P::InterfaceAdapter {
  SimAdapter(P::AdapterExecInterface &i, P::AdapterConf *c) : P::InterfaceAdapter(i, c) { W->intf = &i; }
  bool initialize(P::AdapterConfiguration *c) override
  {
    for (const char *n : {"work", "ask"})
      c->registerCommandHandlerFunction(n, [](P::Command *cmd, P::AdapterExecInterface *f) { execute(cmd, f); });
    c->registerLookupHandlerFunction("epoch", [](P::State const &, P::LookupReceiver *r) { r->update((P::Integer) W->epoch); });
    return true;
  }
  bool start() override { return true; }
  void stop() override {}
};

// ------------------------------------------------------------------- the viewer
void viewer(nanos leaveAt, nanos pace, bool reset, bool chatty)
{
  while (!W->gone) {
    int r = waitUntil("the executive", [] { return !W->peer->in.empty() || W->peer->closedByProc; }, leaveAt);
    if (W->peer->in.empty() && W->peer->closedByProc) return;
    if (r || now() >= leaveAt) {
      event("viewer leaves");
      count(reset ? "fault.viewer_reset" : "fault.viewer_closed");
      W->gone = true;
      net::peerClose(W->peer, reset);
      return;
    }
    if (pace && chance(1, 3)) { count("fault.viewer_slow"); sleepFor((nanos) choose(10) * pace / 5); }
    if (W->peer->in.empty()) continue;
    size_t n = choose(3) ? W->peer->in.size() : 1 + choose(W->peer->in.size());
    W->buf.append(W->peer->in, 0, n);
    W->peer->in.erase(0, n);
    size_t z;
    while ((z = W->buf.find(EOT)) != string::npos) {
      string m = W->buf.substr(0, z);
      W->buf.erase(0, z + 1);
      message(m);
      if (W->block) {
        if (pace && chance(1, 3)) sleepFor((nanos) choose(10) * pace / 5);
        ++W->acks;
        net::peerSend(W->peer, string(1, EOT));
      }
      else if (chatty && chance(1, 4)) net::peerSend(W->peer, "hello");
    }
  }
}
void epochs()
{
  while (!W->stopping && W->plansLeft) {
    sleepFor((nanos) (1 + choose(20)) * 100 * MS);
    if (W->stopping) break;
    ++W->epoch;
    W->intf->handleValueChange(P::State("epoch", 0), P::Value((P::Integer) W->epoch));
    W->intf->notifyOfExternalEvent();
  }
}
void watched()
{
  H h;
  W = &h;
  if (choose(2)) params.memPreempt = 0;
  if (chance(1, 3)) { params.stallMean = 400; params.stallMax = (1 + choose(6)) * 60 * MS; }
  progressLimit(1500000);
  h.block = choose(2);
  bool ignore = choose(3), leaves = chance(1, 3);
  h.refuse = chance(1, 10);
  nanos pace = choose(2) ? 0 : (nanos) (1 + choose(50)) * 10 * MS;
  nanos leaveAt = leaves ? now() + (nanos) choose(choose(2) ? 20 : 100) * 100 * MS : NEVER;
  bool reset = choose(2), chatty = chance(1, 4);
  if (choose(2)) net::tcpWindow = choose(2) ? 8 + choose(100) : 1 + choose(3000);
  net::faults.shortWrite = choose(2) ? 0 : 3 + choose(10);
  net::faults.intr = choose(2) ? 0 : 3 + choose(10);
  if (chance(1, 12)) net::faults.resolve = 1;
  if (chance(1, 12)) net::faults.socket = 1;
  bool expect = true;
  unsigned port = choose(2) ? 49100 : 9000;
  net::resolver = [](string const &n) -> uint32_t { return n == "viewer.host" ? 0x0a000001 : 0; };
  bool local = choose(2);
  net::onConnect = [&h, port, local](uint32_t ip, int p, net::Peer *peer) {
    if (ip != (local ? 0x7f000001u : 0x0a000001u) || p != (int) port) violation("wrong-viewer", "the executive connects to another viewer than configured");
    if (h.refuse) return false;
    if (h.peer) violation("two-connections", "the executive connects to the viewer a second time");
    h.peer = peer;
    h.connected = true;
    return true;
  };
  h.app.reset(P::makeExecApplication());
  P::registerSimAdapter();
  std::ostringstream cfg;
  cfg << "<Interfaces><Adapter AdapterType=\"Time\"><Timebase Type=\"" << (choose(2) ? "Itimer" : "Posix") << "\"/></Adapter><Adapter AdapterType=\"SimA\"/><Listener ListenerType=\"LuvListener\"";
  if (!local || choose(2)) cfg << " HostName=\"" << (local ? "localhost" : "viewer.host") << "\"";
  if (port != 49100 || choose(2)) cfg << " Port=\"" << port << "\"";
  if (h.block || choose(2)) cfg << " Blocking=\"" << (h.block ? "true" : "false") << "\"";
  if (!ignore || choose(2)) cfg << " IgnoreConnectFailure=\"" << (ignore ? "true" : "false") << "\"";
  cfg << "/></Interfaces>";
  static pugi::xml_document doc;
  doc.load_string(cfg.str().c_str());
  event("%s", cfg.str().c_str());
  if (!h.app->initialize(doc.document_element())) violation("config-refused", "the configuration was refused: " + cfg.str());
  s_tap.hub = h.app->listenerHub();
  h.app->exec()->setExecListener(&s_tap);
  bool ok = h.app->startInterfaces();
  net::faults.resolve = net::faults.socket = 0;
  expect = ignore || h.connected;
  if (ok != expect) violation("start", string("starting the interfaces ") + (ok ? "succeeded" : "failed") + " although the viewer " + (h.connected ? "is there" : ignore ? "may be missing" : "is missing and is required"));
  if (!h.connected) count("fault.no_viewer");
  if (ok) {
    if (!h.app->run()) inconclusive("run");
    if (h.connected) spawn("viewer", [=] { viewer(leaveAt, pace, reset, chatty); });
    spawn("epochs", [] { epochs(); });
    unsigned np = 1 + choose(3);
    h.plansLeft = np;
    for (unsigned i = 0, left = np; left;) {
      bool lib = chance(1, 4);
      pugi::xml_document *d = new pugi::xml_document;
      string name, x = plan(name, lib);
      if (d->load_string(x.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) inconclusive("harness: plan XML");
      Add a;
      a.library = lib;
      a.xml = lib ? raw(d->document_element().child("Node")) : raw(d->document_element());
      event("%s", lib ? "addLibrary" : "addPlan");
      h.addOf[name] = h.adds.size();
      h.adds.push_back(a);
      if (lib) { if (!h.app->addLibrary(d)) violation("plan-rejected", "addLibrary refused a valid library"); }
      else { --left; if (!h.app->addPlan(d)) violation("plan-rejected", "addPlan refused a valid plan"); }
      h.app->notifyExec();
      if (choose(3) == 0) sleepFor((nanos) choose(20) * 50 * MS);
      ++i;
    }
    if (waitUntil("the end of all plans", [&h] { return h.plansLeft == 0; }, now() + 3600 * SEC))
      violation("no-progress", "the plans did not end within an hour; viewer " + string(!h.connected ? "never came" : h.gone ? "left" : "is reading") + "; threads: " + threadDump());
    auto told = [&h] {
      if (h.gone || !s_tap.ts.empty() || !s_tap.as.empty() || !h.due.empty() || !h.peer->in.empty() || !h.buf.empty()) return h.gone;
      for (Add &a : h.adds) if (!a.told) return false;
      return true;
    };
    if (h.connected) waitUntil("the viewer to read everything", told, now() + 36000 * SEC);
    waitIdle(now() + 10 * SEC);   // and nothing more comes
    if (h.connected && !h.gone) {
      if (!h.peer->in.empty() || !h.buf.empty()) violation("unfinished", "the executive stopped in the middle of a message: " + (h.buf + h.peer->in).substr(0, 200) + "; threads: " + threadDump());
      if (!h.due.empty()) violation("not-told", "the viewer was never told of " + show(h.due.front()));
      for (Add &a : h.adds) if (!a.told) violation("not-told", "the viewer was never told of a plan or library: " + a.xml.substr(0, 200));
      count("probe.watched_to_the_end");
    }
    else nontrivial();
  }
  event("stop");
  h.stopping = true;
  h.app->stop();
  event("stopped");
  waitIdle(now() + 5 * SEC);
  h.app.reset();
  waitIdle(now() + 1 * SEC);
  if (net::openCount()) violation("descriptor-leak", "descriptors still open after the application was stopped and destroyed: " + net::openList());
  simtime((double) (now() - 1000 * SEC) / 1e9);
  cover(scheduleHash());
  finish();
}
} // namespace
namespace PLEXIL { void registerSimAdapter() { REGISTER_ADAPTER(SimAdapter, "SimA"); } }
int main(int argc, char **argv) { return sim::runnerMain(argc, argv, "luv", [] {
  sim::start();
  watched();
}); }
