// W9: the test executive as a program. A random plan is run twice: by the real executive directly, driven entry by entry by an
// environment of this file's own; and by TestExec's real main() in a process of its own, from a script with the same entries, on
// a simulated file system which may refuse, fail to read or truncate. What TestExec reports must be what happened.
#include "runner.hh"
#include "plan_gen.hh"

#include "ArrayImpl.hh"
#include "ArrayVariable.hh"
#include "Command.hh"
#include "CommandImpl.hh"
#include "CommandHandle.hh"
#include "Dispatcher.hh"
#include "ExecListenerBase.hh"
#include "Error.hh"
#include "LookupReceiver.hh"
#include "NodeImpl.hh"
#include "NodeTransition.hh"
#include "PlexilExec.hh"
#include "ResourceArbiterInterface.hh"
#include "State.hh"
#include "StateCache.hh"
#include "Update.hh"
#include "lifecycle-utils.h"
#include "parsePlan.hh"
#include "planLibrary.hh"
#include "pugixml.hpp"
#include "stricmp.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <functional>
#include <map>
#include <set>
#include <poll.h>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

int testexec_main(int argc, char **argv);
using namespace pm;
namespace P = PLEXIL;

namespace {
enum { FT_NONE, FT_ACCES, FT_MFILE, FT_DIR, FT_EIO };
struct File { string data; int fault = FT_NONE; };
typedef std::map<string, File> Files;
Files *g_fs;      // in the program's process: what it sees of the file system

string esc(string const &s) { string o; for (char c : s) if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else o += c; return o; }
// ------------------------------------------------------------------ the program's process
int g_in = -1, g_out = -1, g_err = -1;
pid_t g_pid;
void put(string &b, string const &s) { b += std::to_string(s.size()) + " " + s; }
void programProcess(int in)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  string b;
  char buf[65536];
  for (ssize_t n; (n = read(in, buf, sizeof buf)) > 0;) b.append(buf, (size_t) n);
  if (b.empty()) _exit(0);
  size_t p = 0;
  auto get = [&] { size_t n = strtoul(b.c_str() + p, nullptr, 10); p = b.find(' ', p) + 1; string s = b.substr(p, n); p += n; return s; };
  static Files fs;
  vector<char *> argv;
  for (unsigned n = (unsigned) atoi(get().c_str()); n--;) argv.push_back(strdup(get().c_str()));
  for (unsigned n = (unsigned) atoi(get().c_str()); n--;) { string name = get(); File &f = fs[name]; f.fault = atoi(get().c_str()); f.data = get(); }
  argv.push_back(nullptr);
  g_fs = &fs;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, SIG_DFL);
  rlimit r{8, 9};
  setrlimit(RLIMIT_CPU, &r);
  r.rlim_cur = r.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &r);
  int rc = testexec_main((int) argv.size() - 1, argv.data());
  std::cout.flush();
  _exit(rc);
}
void forkProgram()
{
  int a[2];
  g_out = memfd_create("out", 0);
  g_err = memfd_create("err", 0);
  if (pipe(a) || g_out < 0) sim::inconclusive("harness: pipe");
  fflush(nullptr);
  g_pid = fork();
  if (g_pid < 0) sim::inconclusive("harness: fork");
  if (g_pid == 0) {
    close(a[1]);
    dup2(g_out, 1);
    if (!getenv("SHOWERR")) dup2(g_err, 2);
    programProcess(a[0]);
  }
  close(a[0]);
  g_in = a[1];
}
int runProgram(vector<string> const &args, Files const &fs, string &out)
{
  string b;
  put(b, std::to_string(args.size()));
  for (auto &x : args) put(b, x);
  put(b, std::to_string(fs.size()));
  for (auto &f : fs) { put(b, f.first); put(b, std::to_string(f.second.fault)); put(b, f.second.data); }
  signal(SIGPIPE, SIG_IGN);
  for (size_t p = 0; p < b.size();) {
    ssize_t n = write(g_in, b.data() + p, b.size() - p);
    if (n <= 0) break;
    p += (size_t) n;
  }
  close(g_in);
  int st = 0;
  for (unsigned i = 0; waitpid(g_pid, &st, WNOHANG) == 0; ++i) {
    if (i > 200000) { kill(g_pid, SIGKILL); sim::inconclusive("harness: the program did not get the processor"); }
    usleep(i < 200 ? 200 : 1000);
  }
  off_t n = lseek(g_out, 0, SEEK_END);
  out.resize((size_t) n);
  if (n && pread(g_out, &out[0], (size_t) n, 0) != n) sim::inconclusive("harness: output");
  return st;
}

// ------------------------------------------------------------------ values
string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
const char *tyName(int t) { switch (t) { case T_BOOL: return "bool"; case T_INT: return "int"; case T_REAL: return "real"; default: return "string"; } }
P::Value scalar(V const &v)
{
  if (!v.k) return P::Value();
  switch (v.t) {
  case T_BOOL: return P::Value((bool) (v.d != 0));
  case T_INT: return P::Value((P::Integer) v.d);
  case T_REAL: return P::Value((P::Real) v.d);
  default: return P::Value(v.s);
  }
}
P::Value toValue(V const &v)
{
  if (!isArr(v.t) || !v.k) return scalar(v);
  vector<P::Value> e;
  for (auto &x : v.el) e.push_back(scalar(x));
  return P::Value(e);
}
string text(V const &v)
{
  if (!v.k) return choose(2) ? "Plexil_Unknown" : "PLEXIL_UNKNOWN";
  switch (v.t) {
  case T_BOOL: return v.d != 0 ? (choose(2) ? "true" : choose(2) ? "TRUE" : "1") : (choose(2) ? "false" : "0");
  case T_INT: return std::to_string((long) v.d);
  case T_REAL: return num(v.d);
  default: return esc(v.s);
  }
}
string typeText(V const &v) { return isArr(v.t) && !v.k ? "int" : isArr(v.t) ? string(tyName(eltOf(v.t))) + "-array" : tyName(v.t); }
string valXml(const char *tag, V const &v)
{
  string o = string("<") + tag + ">", c = string("</") + tag + ">";
  if (!isArr(v.t) || !v.k) return o + text(v) + c;
  string s;
  for (auto &x : v.el) s += o + text(x) + c;
  return s;
}
// a state or command as a script names it; false if a script cannot
bool paramXml(P::Value const &v, string &s)
{
  P::Integer i; P::Real r; P::Boolean b; string const *t;
  switch (v.valueType()) {
  case P::INTEGER_TYPE: s += string("<Param type=\"int\">") + (v.getValue(i) ? std::to_string(i) : "UNKNOWN") + "</Param>"; return true;
  case P::REAL_TYPE: if (v.getValue(r) && !(r - r == 0)) return false; s += string("<Param type=\"real\">") + (v.getValue(r) ? num(r) : "UNKNOWN") + "</Param>"; return true;
  case P::BOOLEAN_TYPE: s += string("<Param type=\"bool\">") + (v.getValue(b) ? (b ? "1" : "0") : "UNKNOWN") + "</Param>"; return true;
  case P::STRING_TYPE:
    if (!v.getValuePointer(t)) { s += "<Param type=\"string\">UNKNOWN</Param>"; return true; }
    if (*t == "UNKNOWN" || (!t->empty() && t->find_first_not_of(" \t\n") == string::npos)) return false;
    s += (t->empty() || choose(2) ? "<Param type=\"string\">" : "<Param>") + esc(*t) + "</Param>";
    return true;
  default: return false;
  }
}
// equal states have equal texts: an integer and a real of the same value are equal
string argsText(P::State const &s)
{
  std::ostringstream o;
  o << s.name();
  for (auto &v : s.parameters()) {
    double d = 0;
    if (v.isKnown() && (v.valueType() == P::INTEGER_TYPE || v.valueType() == P::REAL_TYPE) && v.getValue(d)) o << "|" << num(d + 0.0);
    else o << "|" << (int) v.valueType() << v;
  }
  return o.str();
}

// ------------------------------------------------------------------ what happens when the executive is driven directly
struct Group { vector<string> lines; };
struct D : P::Dispatcher, P::ExecListenerBase {
  std::map<P::State, P::Value> states;
  std::map<string, P::Command *> sent, returning, aborting;
  std::map<string, P::State> names;
  std::map<string, P::ValueType> returnType;
  std::map<string, P::Update *> updates;
  vector<Group> out;
  string printed;
  struct Buf : std::streambuf {
    D *d;
    int overflow(int c) override { if (c != EOF) d->printed += (char) c; return c; }
  } buf;
  D() { buf.d = this; states[P::State::timeState()] = P::Value(0.0); }
  void lookupNow(P::State const &s, P::LookupReceiver *r) override { r->update(states[s]); }
  void setThresholds(P::State const &, P::Real, P::Real) override {}
  void setThresholds(P::State const &, P::Integer, P::Integer) override {}
  void clearThresholds(P::State const &) override {}
  void executeCommand(P::Command *c) override
  {
    P::State const &s = c->getCommand();
    sim::event("sent %s", argsText(s).c_str());
    string name = s.name();
    bool pretty = name.size() > 1 && name[0] == 'p' && name[1] == 'p', toString = name.size() > 8 && name.compare(name.size() - 8, 8, "ToString") == 0;
    if (pretty) name.erase(0, 1);
    if (toString) name.erase(name.size() - 8);
    if (name == "print") {
      printed.clear();
      auto &v = s.parameters();
      std::ostringstream o;
      for (auto &x : v) o << x << (pretty ? " " : "");
      printed = o.str();
      if (pretty) printed += '\n';
      if (toString) { P::commandReturn(c, P::Value(printed)); P::commandHandleReturn(c, P::COMMAND_SUCCESS); sim::count("probe.print_to_string"); return; }
      if (!printed.empty()) out.push_back(Group{{"print " + printed}});
      P::commandHandleReturn(c, P::COMMAND_SUCCESS);
      sim::count("probe.print");
      return;
    }
    string k = argsText(s);
    names[k] = s;
    sent[k] = c;
    if (c->isReturnExpected()) { returning[k] = c; returnType[k] = static_cast<P::CommandImpl *>(c)->getDest()->valueType(); }
  }
  void reportCommandArbitrationFailure(P::Command *c) override { sim::count("probe.denied"); commandHandleReturn(c, P::COMMAND_DENIED); }
  void invokeAbort(P::Command *c) override { string k = argsText(c->getCommand()); names[k] = c->getCommand(); aborting[k] = c; }
  void executeUpdate(P::Update *u) override 
  {
    auto &x = updates[u->getNodeId()];
    if (x && x != u) ambiguous.insert(u->getNodeId());   // two calls of a library: no script can tell them apart
    x = u;
  }
  std::set<string> ambiguous;
  // listeners are told of a step's transitions when the step is over, after what its commands print
  vector<Group> pending;
  void stepComplete(unsigned) override { out.insert(out.end(), pending.begin(), pending.end()); pending.clear(); batches = 0; }
  unsigned batches = 0;
  void notifyOfTransitions(vector<P::NodeTransition> const &b) override
  {
    if (++batches > 300) sim::inconclusive("no quiescence");
    Group g;
    for (auto const &t : b) {
      P::NodeImpl *n = dynamic_cast<P::NodeImpl *>(t.node);
      char at[40];
      snprintf(at, sizeof at, "%.6f", n->getCurrentStateStartTime());
      if (t.newState == P::FINISHED_STATE) g.lines.push_back(" Node '" + n->getNodeId() + "' finished at " + at + " (" + P::outcomeName(n->getOutcome()) + ")");
      else if (t.newState == P::EXECUTING_STATE) g.lines.push_back(" Node '" + n->getNodeId() + "' started at " + at);
    }
    // known finding of P02
    for (auto const &t : b)
      for (auto const &q : b)
        if (t.newState == P::EXECUTING_STATE && q.node == t.node->getParent() && q.oldState == P::FINISHING_STATE) sim::inconclusive("list ended over a starting child");
    if (g.lines.empty()) return;
    for (auto &l : g.lines) sim::event("%s", l.c_str());
    pending.push_back(g);
  }
  void notifyOfAssignment(P::Expression const *, string const &, P::Value const &) override {}
};

struct Peek : P::ArrayVariable { static size_t size(P::ArrayVariable const *a) { return a->*(&Peek::m_maxSize); } };
struct T {
  Gen g;
  D d;
  P::PlexilExec *x = nullptr;
  Files fs;
  string script;
  double time = 0;
  unsigned plans = 0, entries = 0;
  vector<string> given;
  string globals(bool withLibs)
  {
    string s = "<GlobalDeclarations>";
    for (auto &t : STATES)
      s += string("<StateDeclaration><Name>") + t.name + "</Name><Return><Name>r</Name><Type>" + vtName(t.t) + "</Type>" + (isArr(t.t) ? "<MaxSize>3</MaxSize>" : "") + "</Return></StateDeclaration>";
    s += "<StateDeclaration><Name>p</Name><Return><Name>r</Name><Type>Integer</Type></Return><Parameter><Name>q</Name><Type>Integer</Type></Parameter></StateDeclaration>";
    if (withLibs)
      for (auto *l : g.libs) {
        string in, io;
        for (VarD *v : l->params) (v->iface == 1 ? in : io) += declXml(v);
        s += "<LibraryNodeDeclaration><Name>" + l->name + "</Name><Interface>" + (in.empty() ? "" : "<In>" + in + "</In>") + (io.empty() ? "" : "<InOut>" + io + "</InOut>") + "</Interface></LibraryNodeDeclaration>";
      }
    return s + "</GlobalDeclarations>";
  }
  // one of the command names is a command the test executive carries out itself
  string printing(string s)
  {
    for (size_t p; (p = s.find(">delta<")) != string::npos;) {
      size_t c = s.rfind("<Command><", p);
      size_t n = s.rfind("<Name>", p), t = s.rfind("<StringVariable>", n);
      bool toString = c != string::npos && n != string::npos && n > c && n + 18 == p && t != string::npos && t > c && s.find("</StringVariable><Name>", t) + 17 == n;
      s.replace(p, 7, string(">") + (choose(2) ? "p" : "") + (toString ? "printToString<" : "print<"));
    }
    return s;
  }
  string newPlan()
  {
    Nd *r = g.root(string(1, (char) ('A' + plans)), (int) plans);
    ++plans;
    return printing("<PlexilPlan>" + globals(true) + ndXml(r) + "</PlexilPlan>");
  }
  void addPlan(string const &xml)
  {
    pugi::xml_document doc;
    if (!doc.load_string(xml.c_str())) sim::inconclusive("harness: bad plan xml");
    P::NodeImpl *r = P::parsePlan(doc.document_element());
    if (!r || !x->addPlan(r)) sim::inconclusive("harness: plan refused");
  }
  void step() { x->step(time); }
  V value(int t) { V v = chance(1, 12) ? V::unk(t) : g.rv(t); if (v.t == T_STR && v.k && v.s.find_first_not_of(" \t\n") == string::npos) v.s = choose(2) ? "" : "z"; return v; }
  // as a script can write it
  V array(V v)
  {
    if (isArr(v.t) && v.k) {
      bool any = false;
      for (auto &e : v.el) { any = any || e.k; if (e.k && e.t == T_STR && e.s.find_first_not_of(" \t\n") == string::npos) e.s = "y"; }
      if (!any) v = V::unk(v.t);
    }
    return v;
  }
  // ---- entries of the script: the effect on the executive, and the text
  string state(bool initial)
  {
    P::State s;
    V v;
    string params;
    if (choose(5) == 0 && !initial) {
      time += 0.25 * choose(9);
      s = P::State::timeState();
      v = V::num(T_REAL, time);
    }
    else if (choose(6) == 0) {
      int q = (int) choose(5) - 1;
      s = P::State("p", 1);
      s.setParameter(0, P::Value((P::Integer) q));
      params = "<Param type=\"int\">" + std::to_string(q) + "</Param>";
      v = value(T_INT);
    }
    else {
      auto &t = STATES[choose(g.k.pArray ? 10 : 6)];
      s = P::State(t.name);
      v = array(value(t.t));
    }
    P::Value pv = toValue(v);
    d.states[s] = pv;
    P::StateCache::instance().lookupReturn(s, pv);
    sim::count("probe.state");
    return "<State name=\"" + s.name() + "\" type=\"" + typeText(v) + "\">" + params + valXml("Value", v) + "</State>";
  }
  template <typename M> bool pick(M &m, string &k, string &params)
  {
    if (m.empty()) return false;
    auto it = m.begin();
    std::advance(it, choose((unsigned) m.size()));
    k = it->first;
    for (auto &v : d.names[k].parameters()) if (!paramXml(v, params)) return false;
    return true;
  }
  string entry()
  {
    string k, p;
    switch (weighted({5, 4, 4, 3, 3})) {
    case 1: {
      if (!pick(d.sent, k, p)) break;
      static const P::CommandHandleValue H[] = {P::COMMAND_SUCCESS, P::COMMAND_SENT_TO_SYSTEM, P::COMMAND_ACCEPTED, P::COMMAND_RCVD_BY_SYSTEM, P::COMMAND_FAILED, P::COMMAND_DENIED};
      P::CommandHandleValue h = H[choose(6)];
      P::commandHandleReturn(d.sent[k], h);
      sim::count("probe.ack");
      return "<CommandAck name=\"" + esc(d.names[k].name()) + "\" type=\"string\">" + p + "<Result>" + P::commandHandleValueName(h) + "</Result></CommandAck>";
    }
    case 2: {
      if (!pick(d.returning, k, p)) break;
      V v = value(1 + (int) choose(4));
      P::Command *c = d.returning[k];
      P::ValueType want = d.returnType[k];
      switch (want) {
      case P::BOOLEAN_TYPE: v = value(T_BOOL); break;
      case P::INTEGER_TYPE: v = value(T_INT); break;
      case P::REAL_TYPE: v = value(T_REAL); break;
      case P::STRING_TYPE: v = value(T_STR); break;
      case P::BOOLEAN_ARRAY_TYPE: v = array(value(T_ARR + T_BOOL)); break;
      case P::INTEGER_ARRAY_TYPE: v = array(value(T_ARR + T_INT)); break;
      case P::REAL_ARRAY_TYPE: v = array(value(T_ARR + T_REAL)); break;
      case P::STRING_ARRAY_TYPE: v = array(value(T_ARR + T_STR)); break;
      default: return "";
      }
      if (v.k && v.t == T_STR && v.s.empty()) v.s = "e";
      if (isArr(v.t) && v.k) {
        // more elements than the variable has room for are an error of the plan's
        auto *av = dynamic_cast<P::ArrayVariable const *>(static_cast<P::CommandImpl *>(c)->getDest());
        v.el.resize(std::min(v.el.size(), av ? Peek::size(av) : size_t(1)), V::unk(eltOf(v.t)));
        v = array(v);
      }
      P::commandReturn(c, toValue(v));
      string n = d.names[k].name();
      d.returning.erase(k);
      sim::count(isArr(v.t) ? "probe.return_array" : "probe.return");
      string x = "<Command name=\"" + esc(n) + "\" type=\"" + typeText(v) + "\">" + p + valXml("Result", v) + "</Command>";
      answered = [this, k, x] { return d.returning.count(k) ? string() : x; };
      return x;
    }
    case 3: {
      if (!pick(d.aborting, k, p)) break;
      bool a = choose(4) != 0;
      P::commandAbortAcknowledge(d.aborting[k], a);
      string n = d.names[k].name();
      d.aborting.erase(k);
      sim::count("probe.abort");
      string x = "<CommandAbort name=\"" + esc(n) + "\" type=\"bool\">" + p + "<Result>" + text(V::num(T_BOOL, a)) + "</Result></CommandAbort>";
      answered = [this, k, x] { return d.aborting.count(k) ? string() : x; };
      return x;
    }
    case 4: {
      if (d.updates.empty()) break;
      auto it = d.updates.begin();
      std::advance(it, choose((unsigned) d.updates.size()));
      string n = it->first;
      if (d.ambiguous.count(n)) break;
      it->second->acknowledge(true);
      d.updates.erase(it);
      sim::count("probe.update");
      answered = [this, n] { return d.updates.count(n) ? string() : "<UpdateAck name=\"" + n + "\"/>"; };
      return "<UpdateAck name=\"" + n + "\"/>";
    }
    default:;
    }
    return state(false);
  }
  std::function<string()> answered;
  // an entry no script may have where it stands
  string wrongEntry()
  {
    sim::count("fault.script_entry");
    if (answered && choose(2)) {
      string x = answered();     // once more
      if (!x.empty()) { sim::count("fault.answer_twice"); return x; }
    }
    switch (choose(14)) {
    case 0: return "<Stat name=\"i0\" type=\"int\"><Value>1</Value></Stat>";
    case 1: return "<State type=\"int\"><Value>1</Value></State>";
    case 2: return "<State name=\"i0\"><Value>1</Value></State>";
    case 3: return "<State name=\"i0\" type=\"int\"/>";
    case 4: return "<State name=\"i0\" type=\"number\"><Value>1</Value></State>";
    case 5: return "<Command name=\"nosuch\" type=\"int\"><Result>1</Result></Command>";
    case 6: return "<CommandAck name=\"nosuch\" type=\"string\"><Result>COMMAND_SUCCESS</Result></CommandAck>";
    case 7: return "<CommandAbort name=\"nosuch\" type=\"bool\"><Result>true</Result></CommandAbort>";
    case 8: return "<UpdateAck name=\"nosuch\"/>";
    case 9: return "<CommandAbort name=\"nosuch\" type=\"int\"><Result>1</Result></CommandAbort>";
    case 10: return "<SendPlan/>";
    case 11: return "<SendPlan file=\"nosuch.plx\"/>";
    case 12: { File &f = fs["sent.bad"]; f.data = "<PlexilPlan><Node"; f.fault = choose(2) ? FT_NONE : 1 + (int) choose(4); return "<SendPlan file=\"sent.bad\"/>"; }
    default: return "<Simultaneous><Delay2/></Simultaneous>";
    }
  }
};

void run()
{
  forkProgram();
  T &t = *new T;
  Knobs &k = t.g.k;
  unsigned nEntries = 2 + choose(24), libs = choose(3) ? 0 : 1 + choose(2);
  k.maxNodes = 3 + choose(12);
  k.maxDepth = 1 + choose(3);
  k.pLookup = choose(4) * 25;
  k.wCmd = 3 + choose(8);
  k.wUpd = 1 + choose(4);
  k.pParam = choose(2) * 20;
  k.pMutex = choose(4) == 0 ? 30 : 0;
  k.pArray = choose(4) == 0 ? 25 : 0;
  k.wLib = libs ? 3 : 0;
  k.pDyn = false;
  k.pc[C_EXIT] += 8;
  k.pc[C_REPEAT] = choose(20);
  // ---- what goes wrong
  enum { NONE, OPT, PLANFILE, PLANBAD, LIBGONE, LIBBAD, LOPT, SCRIPTFILE, SCRIPTROOT, ENTRY, INITIAL, NOSCRIPT, NERR };
  static const char *const EN[] = {"", "options", "plan_file", "plan_wrong", "library_missing", "library_wrong", "library_option", "script_file", "script_root", "entry", "initial_state", "no_script"};
  int err = choose(2) ? NONE : 1 + (int) choose(NERR - 1);
  if (err) sim::count((string("fault.") + EN[err]).c_str());
  bool runs = err == NONE || err == ENTRY || err == INITIAL || err == NOSCRIPT;
  // ---- the executive, driven directly
  P::Error::doNotDisplayErrors();
  t.x = P::makePlexilExec();
  P::g_exec = t.x;
  P::g_dispatcher = &t.d;
  t.x->setDispatcher(&t.d);
  t.x->setExecListener(&t.d);
  vector<string> dirs{""}, lopts;
  for (unsigned i = choose(3); i--;) dirs.push_back(choose(2) ? "/lib" + std::to_string(i) : "d" + std::to_string(i));
  for (unsigned i = 0; i < libs; ++i) {
    LibDef *l = t.g.library("Lib" + std::to_string(i));
    string x = t.printing("<PlexilPlan>" + t.globals(false) + ndXml(l->root) + "</PlexilPlan>");
    pugi::xml_document *doc = new pugi::xml_document;
    if (!doc->load_string(x.c_str()) || !P::loadLibraryDocument(doc)) sim::inconclusive("harness: bad library");
    bool opt = choose(3) == 0;
    string path = (opt ? string("/else") : dirs[choose((unsigned) dirs.size())]);
    path = (path.empty() ? "" : path + "/") + l->name + ".plx";
    t.fs[path].data = x;
    if (opt) { lopts.push_back("-l"); lopts.push_back(choose(2) ? path : path.substr(0, path.size() - 4)); }
    t.g.libs.push_back(l);
  }
  // resources
  bool noRes = choose(4) == 0, resOpt = !noRes && choose(2);
  string resFile = resOpt ? "/r/res" : "resource.data";
  if (choose(3) == 0) {
    k.pResource = 50;
    string s;
    for (const char *r : RESNAMES) if (choose(3)) s += string(r) + " " + std::to_string(1 + choose(3)) + "\n";
    t.fs[resFile].data = s;
    std::istringstream in(s);
    if (!noRes && !t.x->getArbiter()->readResourceHierarchy(in)) sim::inconclusive("harness: resources");
  }
  string plan = t.newPlan();
  if (runs) {
    t.addPlan(plan);
    string init, body;
    unsigned stop = err == ENTRY ? choose(nEntries) : nEntries;
    string bad = err == ENTRY || err == INITIAL ? "x" : "";
    for (unsigned i = choose(6); i--;) init += t.state(true);
    if (err == INITIAL) {
      static const char *const B[] = {"<State type=\"int\"><Value>1</Value></State>", "<State name=\"i0\"><Value>1</Value></State>", "<State name=\"i0\" type=\"int\"></State>", "<State name=\"i0\" type=\"x\"><Value>1</Value></State>", "<Stat name=\"i0\" type=\"int\"><Value>1</Value></Stat>"};
      init += B[choose(5)];
    }
    else {
      t.step();
      for (unsigned i = 0; i < stop && err != NOSCRIPT; ++i) {
        if (choose(8) == 0) { body += choose(2) ? "<Delay/>" : "<Delay></Delay>"; t.step(); continue; }
        if (t.plans < 4 && choose(9) == 0) {
          string x = t.newPlan(), name = "sent" + std::to_string(t.plans) + ".plx";
          bool wrong = choose(4) == 0;
          if (wrong) { x = choose(2) ? "<PlexilPlan/>" : "<PlexilPlan><Node NodeType=\"Odd\"><NodeId>o</NodeId></Node></PlexilPlan>"; sim::count("fault.sent_plan_wrong"); }
          else sim::count("probe.sent_plan");
          t.fs[name].data = (choose(2) ? "<?xml version=\"1.0\"?>\n" : "") + x + "\n";
          body += "<SendPlan file=\"" + name + "\"/>";
          if (!wrong) t.addPlan(x);
        }
        else if (choose(5) == 0) {
          string s;
          for (unsigned j = choose(5); j--;) s += t.entry();
          body += choose(2) ? "<Simultaneous>\n " + s + "</Simultaneous>" : "<Simultaneous>" + s + "</Simultaneous>";
          sim::count("probe.simultaneous");
        }
        else {
          string s = t.entry();
          if (s.empty()) continue;
          body += s;
        }
        if (choose(3) == 0) body += "\n  ";
        if (choose(12) == 0) body += "<!-- State -->";
        t.step();
        sim::nontrivial();
      }
      if (err == ENTRY) body += t.wrongEntry() + (choose(2) ? "<Delay/>" : "");
      else if (err != NOSCRIPT)
        for (unsigned i = 0; t.x->needsStep(); ++i) { if (i > 400) { close(g_in); sim::inconclusive("no quiescence"); } t.step(); }
    }
    t.script = "<PLEXILScript>" + (init.empty() && choose(2) ? "" : "<InitialState>" + init + "</InitialState>") + (err == NOSCRIPT ? "" : "<Script>" + body + "</Script>") + "</PLEXILScript>";
  }
  else { t.script = "<PLEXILScript><InitialState/><Script/></PLEXILScript>"; sim::nontrivial(); }
  if (choose(2)) t.script = "<?xml version=\"1.0\"?>\n" + t.script + "\n";
  if (err == LIBGONE || err == LIBBAD) {
    plan = "<PlexilPlan><Node NodeType=\"LibraryNodeCall\"><NodeId>bad</NodeId><NodeBody><LibraryNodeCall><NodeId>LibX</NodeId></LibraryNodeCall></NodeBody></Node></PlexilPlan>";
    string path = dirs[choose((unsigned) dirs.size())];
    path = (path.empty() ? path : path + "/") + "LibX.plx";
    string good = "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>LibX</NodeId></Node></PlexilPlan>";
    if (err == LIBBAD) {
      File &f = t.fs[path];
      f.data = good;
      switch (choose(4)) {
      case 0: f.data.resize(choose((unsigned) good.size() - 12)); break;
      case 1: f.data = "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>LibY</NodeId></Node></PlexilPlan>"; break;
      case 2: f.fault = choose(2) ? FT_DIR : FT_EIO; break;
      default: f.data = "<PlexilPlan><Node NodeType=\"Odd\"><NodeId>LibX</NodeId></Node></PlexilPlan>";
      }
    }
    else if (choose(2)) { t.fs[path].data = good; t.fs[path].fault = choose(2) ? FT_ACCES : FT_MFILE; }
  }
  string planName = choose(2) ? "plan.plx" : "/p/a.xml", scriptName = choose(2) ? "s.psx" : "/s/b.xml";
  auto damage = [&](File &f, const char *) {
    switch (choose(5)) {
    case 0: f.fault = FT_ACCES; break;
    case 1: f.fault = FT_DIR; break;
    case 2: f.fault = FT_EIO; break;
    case 3: f.data.clear(); break;
    default: f.data.resize(choose((unsigned) f.data.size() - 14));
    }
  };
  if (!(err == PLANFILE && choose(6) == 0)) {
    File &f = t.fs[planName];
    f.data = plan;
    if (err == PLANFILE) damage(f, "plan");
    if (err == PLANBAD) f.data = choose(2) ? "<PlexilPlan/>" : choose(2) ? "<Plan><Node/></Plan>" : "<PlexilPlan><Node NodeType=\"Odd\"><NodeId>x</NodeId></Node></PlexilPlan>";
  }
  if (!(err == SCRIPTFILE && choose(6) == 0)) {
    File &f = t.fs[scriptName];
    f.data = t.script;
    if (err == SCRIPTFILE) damage(f, "script");
    if (err == SCRIPTROOT) f.data = choose(2) ? "<Script/>" : "<PlexilScript><Script/></PlexilScript>";
  }
  // ---- options
  vector<vector<string>> gs{{"-p", planName}, {"-s", scriptName}};
  if (noRes) gs.push_back({"+r"}); else if (resOpt) gs.push_back({"-r", resFile});
  string dbg = choose(2) ? "Debug.cfg" : "/etc/dbg";
  t.fs[dbg].data = choose(2) ? "# tags\nNode:clock\n" : ":Node:clock\n";
  if (dbg != "Debug.cfg") gs.push_back({"-d", dbg});
  for (size_t i = 0; i + 1 < lopts.size(); i += 2) gs.push_back({lopts[i], lopts[i + 1]});
  for (size_t i = 1; i < dirs.size(); ++i) gs.push_back({"-L", dirs[i]});
  if (err == LOPT) {
    string n = "/libs/LibZ.plx";
    if (choose(2)) { t.fs[n].data = "<PlexilPlan><Node NodeType=\"Empty\"><NodeId>LibZ</NodeId></Node></PlexilPlan>"; damage(t.fs[n], "library"); }
    gs.push_back({"-l", n});
  }
  for (size_t i = gs.size(); i > 1; --i) std::swap(gs[i - 1], gs[choose((unsigned) i)]);
  if (err == OPT)
    switch (choose(5)) {
    case 0: { static const char *const N[] = {"-p", "-s", "-l", "-L", "-d", "-r"}; const char *o = N[choose(4)]; gs.push_back({o}); break; }
    case 1: gs.insert(gs.begin() + choose((unsigned) gs.size() + 1), {"--what"}); break;
    case 2: gs = {{choose(2) ? "-p" : "-s", planName}}; break;
    case 3: gs.push_back({"+r"}); gs.push_back({"-r", "x"}); break;
    default: gs.push_back({"-d", "a"}); gs.push_back({choose(2) ? "+d" : "-d", "b"});
    }
  vector<string> args{"TestExec"};
  for (auto &g : gs) args.insert(args.end(), g.begin(), g.end());
  string cl;
  for (auto &a : args) cl += a + " ";
  sim::event("%s (fault %s)", cl.c_str(), EN[err]);
  for (auto &f : t.fs) sim::trace(f.first + (f.second.fault ? " [fault " + std::to_string(f.second.fault) + "]" : "") + ":\n" + f.second.data);
  // ---- the program
  string out;
  int st = runProgram(args, t.fs, out);
  if (sim::tracing()) sim::trace("output:\n" + out);
  string where = " (" + cl + ")";
  {
    char b[201] = "";
    ssize_t n = pread(g_err, b, 200, std::max<off_t>(0, lseek(g_err, 0, SEEK_END) - 200));
    if (n > 0 && sim::tracing()) sim::trace(string("error output: ") + b);
  }
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) sim::violation("hang", "the program did not end" + where);
  if (WIFSIGNALED(st)) sim::violation("crash", string("the program died of ") + strsignal(WTERMSIG(st)) + (err ? string(" with fault ") + EN[err] : "") + where);
  bool good = WEXITSTATUS(st) == 0;
  if (good != (err == NONE)) sim::violation("status", "the exit status is " + std::to_string(WEXITSTATUS(st)) + (err ? string(" with fault ") + EN[err] : "") + where);
  // ---- what it reported: node by node, the order of what happens at once being free
  size_t p = 0;
  auto shown = [&](size_t q) { string s = out.substr(q, 160); size_t e = s.find('\n'); return e == string::npos ? s : s.substr(0, e); };
  for (auto &g : t.d.out) {
    if (g.lines[0].compare(0, 6, "print ") == 0) {
      string s = g.lines[0].substr(6);
      if (out.compare(p, s.size(), s)) sim::violation("report", "expected the plan to print \"" + s + "\", the program reported \"" + shown(p) + "\"" + where);
      p += s.size();
      continue;
    }
    std::multiset<string> left(g.lines.begin(), g.lines.end());
    while (!left.empty()) {
      string l = shown(p), tag = "[Node:clock]";
      if (l.compare(0, tag.size(), tag) || !left.count(l.substr(tag.size()))) sim::violation("report", "expected" + *left.begin() + ", the program reported \"" + l + "\"" + where);
      left.erase(left.find(l.substr(tag.size())));
      p += l.size() + 1;
    }
  }
  if (p < out.size() && out.find("[Node:clock]", p) != string::npos) sim::violation("report", "the program reported what did not happen: " + shown(p) + where);
  for (auto &g : t.d.out) for (auto &l : g.lines) sim::cover(sim::hashStr(l.c_str()));
  sim::simtime(t.time);
  sim::finish();
}

struct Cookie { string data; size_t pos = 0; };
ssize_t cookieRead(void *c, char *buf, size_t n)
{
  Cookie *k = (Cookie *) c;
  size_t half = k->data.size() / 2;
  if (k->pos >= half) { errno = EIO; return -1; }
  n = std::min(n, half - k->pos);
  memcpy(buf, k->data.data() + k->pos, n);
  k->pos += n;
  return (ssize_t) n;
}
int cookieSeek(void *c, off64_t *off, int whence)
{
  Cookie *k = (Cookie *) c;
  long p = whence == SEEK_SET ? *off : whence == SEEK_CUR ? (long) k->pos + *off : (long) k->data.size() + *off;
  if (p < 0) { errno = EINVAL; return -1; }
  *off = p;
  k->pos = (size_t) p;
  return 0;
}
int cookieClose(void *c) { delete (Cookie *) c; return 0; }
} // namespace

extern "C" FILE *fopen(const char *path, const char *mode)
{
  static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  if (!g_fs) return real(path, mode);
  string p = path;
  while (p.compare(0, 2, "./") == 0) p.erase(0, 2);
  auto it = g_fs->find(p);
  if (it == g_fs->end()) { errno = ENOENT; return nullptr; }
  File &f = it->second;
  switch (f.fault) {
  case FT_ACCES: errno = EACCES; return nullptr;
  case FT_MFILE: errno = EMFILE; return nullptr;
  case FT_DIR: return real("/", "r");
  case FT_EIO: {
    Cookie *c = new Cookie;
    c->data = f.data;
    return fopencookie(c, mode, cookie_io_functions_t{cookieRead, nullptr, cookieSeek, cookieClose});
  }
  default:;
  }
  int fd = memfd_create("f", 0);
  if (write(fd, f.data.data(), f.data.size()) < 0) return nullptr;
  lseek(fd, 0, SEEK_SET);
  return fdopen(fd, "r");
}
extern "C" FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }

int main(int argc, char **argv) { return sim::runnerMain(argc, argv, "test", run); }
