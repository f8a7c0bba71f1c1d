// Plays a script against the real executive and prints what it does.
// Script lines:
//   plan <xml>          add a plan          library <xml>
//   set K V             value the next lookups of state K get (no notification)
//   ans K V             queues an answer for one lookup of state K
//   state K V           the outside world reports that K is V
//   handle PATH NAME    command handle      value PATH V        command return value
//   abortack PATH 0|1   updateack PATH 0|1
//   step T              run the executive until it is quiescent, at time T
//   purge               delete finished plans
// V: true/false, 12, 1.25, "text", unknown.  K: name or name|arg
#include "PlexilExec.hh"
#include "CommandNode.hh"
#include "CommandImpl.hh"
#include "UpdateNode.hh"
#include "Update.hh"
#include "AssignmentNode.hh"
#include "Dispatcher.hh"
#include "ExecListenerBase.hh"
#include "NodeTransition.hh"
#include "LookupReceiver.hh"
#include "ResourceArbiterInterface.hh"
#include "StateCache.hh"
#include "State.hh"
#include "NodeFactory.hh"
#include "parsePlan.hh"
#include "planLibrary.hh"
#include "parser-utils.hh"
#include "lifecycle-utils.h"
#include "Error.hh"
#include "pugixml.hpp"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <algorithm>
#include <unistd.h>
using namespace PLEXIL;
using std::string;
static std::map<string, string> table;
static std::map<string, std::vector<string>> answers; // answers queued for the next lookups of a state
static std::map<string, Command *> cmds;
static std::map<Command *, string> cmdName;
static std::map<string, Update *> upds;
static std::map<string, State> states;
static std::vector<string> out;
static void flushSorted(std::vector<string> &v) { std::sort(v.begin(), v.end()); for (string &s : v) std::cout << s << "\n"; v.clear(); std::cout.flush(); }
static string path(Node const *n) { string s; for (; n; n = n->getParent()) s = "/" + n->getNodeId() + s; return s; }
static Value val(string const &v)
{
  if (v == "true") return Value((bool) true);
  if (v == "false") return Value((bool) false);
  if (v == "unknown") return Value();
  if (v[0] == '"') return Value(v.substr(1, v.size() - 2));
  if (v.find('.') != string::npos) return Value((Real) atof(v.c_str()));
  return Value((Integer) atoi(v.c_str()));
}
static string key(State const &s)
{
  std::ostringstream o;
  o << s.name();
  for (size_t i = 0; i < s.parameterCount(); ++i) o << "|" << s.parameter(i);
  states[o.str()] = s;
  return o.str();
}
struct D : Dispatcher, ExecListenerBase {
  void lookupNow(State const &s, LookupReceiver *r) override
  {
    string k = key(s);
    if (getenv("DRV_LOOKUPS")) out.push_back("  lookup " + k);
    auto &q = answers[k];
    if (!q.empty()) { table[k] = q.front(); q.erase(q.begin()); }
    auto it = table.find(k);
    if (it == table.end() || it->second == "none") return;
    Value v = val(it->second);
    if (v.isKnown()) r->update(v); else r->setUnknown();
  }
  void setThresholds(State const &s, Real hi, Real lo) override { std::ostringstream o; o << "  thresholds " << key(s) << " " << lo << " " << hi; if (getenv("DRV_THRESHOLDS")) out.push_back(o.str()); }
  void setThresholds(State const &s, Integer hi, Integer lo) override { setThresholds(s, (Real) hi, (Real) lo); }
  void clearThresholds(State const &s) override { if (getenv("DRV_THRESHOLDS")) out.push_back("  clear thresholds " + key(s)); }
  void executeCommand(Command *c) override
  {
    std::ostringstream o;
    o << "  send " << cmdName[c] << " " << c->getName();
    for (Value const &v : c->getArgValues()) o << " " << v;
    out.push_back(o.str());
  }
  void reportCommandArbitrationFailure(Command *c) override { out.push_back("  denied " + cmdName[c]); commandHandleReturn(c, COMMAND_DENIED); }
  void invokeAbort(Command *c) override { out.push_back("  abort " + cmdName[c]); }
  void executeUpdate(Update *u) override
  {
    std::ostringstream o;
    o << "  update";
    std::set<string> s;
    for (auto const &p : u->getPairs()) { std::ostringstream q; q << " " << p.first << "=" << p.second; s.insert(q.str()); }
    for (auto &x : s) o << x;
    out.push_back(o.str());
  }
  void stepComplete(unsigned int) override {}
  void notifyOfTransitions(std::vector<NodeTransition> const &b) override
  {
    std::vector<string> l;
    for (auto const &t : b) {
      string s = path(t.node) + " " + nodeStateName(t.oldState) + " -> " + nodeStateName(t.newState);
      if (t.newState == FINISHED_STATE || t.newState == ITERATION_ENDED_STATE || t.newState == FAILING_STATE)
        s += string(" ") + outcomeName(t.node->getOutcome()) + (t.node->getFailureType() ? string(" ") + failureTypeName(t.node->getFailureType()) : "");
      l.push_back(s);
    }
    flushSorted(out);
    flushSorted(l);
  }
  void notifyOfAssignment(Expression const *, string const &n, Value const &v) override { std::ostringstream o; o << "  assign " << n << " " << v; out.push_back(o.str()); }
};
static void map(NodeImpl *n)
{
  string p = path(n);
  if (auto c = dynamic_cast<CommandNode *>(n)) { cmds[p] = c->getCommand(); cmdName[c->getCommand()] = p; }
  if (auto u = dynamic_cast<UpdateNode *>(n)) upds[p] = (Update *) u->getUpdate();
  for (auto &k : n->getChildren()) map(k.get());
}
static CommandHandleValue handle(string const &s)
{
  for (int h = NO_COMMAND_HANDLE + 1; h < COMMAND_HANDLE_MAX; ++h) if (commandHandleValueName((CommandHandleValue) h) == s) return (CommandHandleValue) h;
  std::cerr << "bad handle " << s << "\n"; exit(9);
}
int main(int, char **argv)
{
  D d;

  PlexilExec *x = makePlexilExec();
  g_exec = x; g_dispatcher = &d;
  x->setDispatcher(&d); x->setExecListener(&d);
  std::ifstream is(argv[1]);
  string l, k, v;
  if (argv[2]) { std::ifstream r(argv[2]); if (!x->getArbiter()->readResourceHierarchy(r)) return 9; }
  try {
    while (getline(is, l)) {
      std::istringstream s(l);
      string op; s >> op;
      if (op.empty() || op[0] == '#') continue;
      std::cout << "> " << (op == "plan" || op == "library" ? op : l) << "\n";
      if (op == "plan" || op == "library") {
        pugi::xml_document *doc = new pugi::xml_document;
        if (!doc->load_string(l.c_str() + op.size() + 1)) { std::cout << "bad xml\n"; return 9; }
        if (op == "library") { std::cout << (loadLibraryDocument(doc) ? 1 : 0) << "\n"; continue; }
        NodeImpl *r = parsePlan(doc->document_element());
        map(r);
        x->addPlan(r);
      }
      else if (op == "set") { s >> k >> v; table[k] = v; }
      else if (op == "ans") { s >> k >> v; answers[k].push_back(v); }
      else if (op == "state") { s >> k >> v; table[k] = v; if (!states.count(k)) states[k] = State(k); StateCache::instance().lookupReturn(states[k], val(v)); }
      else if (op == "handle") { s >> k >> v; commandHandleReturn(cmds.at(k), handle(v)); }
      else if (op == "value") { s >> k >> v; commandReturn(cmds.at(k), val(v)); }
      else if (op == "abortack") { s >> k >> v; commandAbortAcknowledge(cmds.at(k), v == "1"); }
      else if (op == "updateack") { s >> k >> v; upds.at(k)->acknowledge(v == "1"); }
      else if (op == "purge") { x->deleteFinishedPlans(); }
      else if (op == "step") { double t; s >> t; for (int i = 0; x->needsStep(); ++i) { if (i > 200) { std::cout << "no quiescence\n"; return 3; } x->step(t); flushSorted(out); } }
      else { std::cerr << "bad line " << l << "\n"; return 9; }
      flushSorted(out);
    }
  }
  catch (std::exception const &e) { std::cout << "exception " << e.what() << "\n"; return 4; }
  std::cout << "end\n";
  std::cout.flush();
  _exit(0);
}
