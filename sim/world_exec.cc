// W1: the real executive (parser, nodes, expressions, state cache, resource
// arbiter) driven by a simulated adapter, in lockstep with a reference model.
#include "runner.hh"
#include "plan_exec_model.hh"
#include "plan_gen.hh"
#include "plan_mutate.hh"
#include "lawbook.hh"

#include "PlexilExec.hh"
#include "CommandNode.hh"
#include "CommandImpl.hh"
#include "UpdateNode.hh"
#include "Update.hh"
#include "AssignmentNode.hh"
#include "ListNode.hh"
#include "Dispatcher.hh"
#include "ExecListenerBase.hh"
#include "NodeTransition.hh"
#include "LookupReceiver.hh"
#include "ResourceArbiterInterface.hh"
#include "StateCache.hh"
#include "State.hh"
#include "ArrayImpl.hh"
#include "NodeFactory.hh"
#include "parsePlan.hh"
#include "planLibrary.hh"
#include "parser-utils.hh"
#include "lifecycle-utils.h"
#include "Error.hh"
#include "pugixml.hpp"
#include <sstream>
#include <iostream>

using namespace pm;
namespace P = PLEXIL;

namespace {
struct Reply { int kind; int handle; V val; bool ack; }; // 0 handle, 1 value, 2 abort ack
struct CmdEnv { Nd *n; P::Command *cmd; vector<Reply> script; size_t pos = 0; bool aborting = false; };
struct UpdEnv { Nd *n; P::Update *upd; bool acked = false; };

struct World;
World *W;

V fromValue(P::Value const &v)
{
  if (!v.isKnown()) return V();
  switch (v.valueType()) {
  case P::BOOLEAN_TYPE: { P::Boolean b; v.getValue(b); return V::b(b); }
  case P::INTEGER_TYPE: { P::Integer i; v.getValue(i); return V::num(T_INT, i); }
  case P::REAL_TYPE: { P::Real r; v.getValue(r); return V::num(T_REAL, r); }
  case P::STRING_TYPE: { P::String const *s; v.getValuePointer(s); return V::str(*s); }
  case P::BOOLEAN_ARRAY_TYPE: case P::INTEGER_ARRAY_TYPE: case P::REAL_ARRAY_TYPE: case P::STRING_ARRAY_TYPE: {
    P::Array const *a;
    v.getValuePointer(a);
    int t = v.valueType() == P::BOOLEAN_ARRAY_TYPE ? T_BOOL : v.valueType() == P::INTEGER_ARRAY_TYPE ? T_INT : v.valueType() == P::REAL_ARRAY_TYPE ? T_REAL : T_STR;
    V r = V::arr(T_ARR + t, a->size());
    for (size_t i = 0; i < a->size(); ++i) if (a->elementKnown(i)) r.el[i] = fromValue(a->getElementValue(i));
    return r;
  }
  default: return V();
  }
}
P::Value toValue(V const &v)
{
  if (!v.k) {
    switch (v.t) {
    case T_BOOL: return P::Value(P::BOOLEAN_TYPE);
    case T_INT: return P::Value(P::INTEGER_TYPE);
    case T_REAL: return P::Value(P::REAL_TYPE);
    case T_STR: return P::Value(P::STRING_TYPE);
    case T_ARR + T_BOOL: return P::Value(P::BOOLEAN_ARRAY_TYPE);
    case T_ARR + T_INT: return P::Value(P::INTEGER_ARRAY_TYPE);
    case T_ARR + T_REAL: return P::Value(P::REAL_ARRAY_TYPE);
    case T_ARR + T_STR: return P::Value(P::STRING_ARRAY_TYPE);
    default: return P::Value();
    }
  }
  if (isArr(v.t)) {
    std::unique_ptr<P::Array> a;
    switch (eltOf(v.t)) {
    case T_BOOL: a.reset(new P::BooleanArray(v.el.size())); break;
    case T_INT: a.reset(new P::IntegerArray(v.el.size())); break;
    case T_REAL: a.reset(new P::RealArray(v.el.size())); break;
    default: a.reset(new P::StringArray(v.el.size()));
    }
    for (size_t i = 0; i < v.el.size(); ++i) {
      // (what an unknown element held before does not show)
      if (v.el[i].k) a->setElementValue(i, toValue(v.el[i]));
      else if (sim::chance(1, 3)) { a->setElementValue(i, toValue(v.t == T_ARR + T_STR ? V::str("q") : V::num(eltOf(v.t), 1))); a->setElementUnknown(i); }
    }
    return P::Value(*a);
  }
  switch (v.t) {
  case T_BOOL: return P::Value((bool) (v.d != 0));
  case T_INT: return P::Value((P::Integer) v.d);
  case T_REAL: return P::Value((P::Real) v.d);
  default: return P::Value(v.s);
  }
}
bool sameVal(V const &a, V const &b) { return a.same(b); }
string nodePath(P::Node const *n)
{
  string s;
  for (; n; n = n->getParent()) s = "/" + n->getNodeId() + s;
  return s;
}
string mpath(Nd *n)
{
  string s;
  for (; n; n = n->parent) s = "/" + n->id + s;
  return s;
}

struct World final : P::Dispatcher, P::ExecListenerBase {
  P::PlexilExec *exec = nullptr;
  Model m;
  Gen g;
  vector<Nd *> roots;            // live plans
  std::map<P::Node const *, Nd *> r2m;
  std::map<Nd *, P::Node *> m2r;
  std::map<P::Command *, Nd *> c2m;
  std::map<P::Update *, Nd *> u2m;
  std::map<VarD *, P::Expression *> v2r;
  std::map<Nd *, CmdEnv> cmds;
  std::map<Nd *, UpdEnv> upds;
  std::map<string, V> truth;     // the simulated world's states
  std::map<string, P::State> stateOf;
  unsigned plansAdded = 0;
  bool inStep = false;
  unsigned micro = 0, batches = 0, transitions = 0;
  // logged by the real side during the current step
  vector<std::pair<string, V>> assignLog;
  struct Sent { Nd *n; string name; vector<V> args; };
  vector<Sent> sentLog;
  vector<Nd *> rejLog, abortLog;
  struct UpdSent { Nd *n; std::map<string, V> pairs; };
  vector<UpdSent> updLog;
  unsigned drift = 0;            // percent: a state's value moves at a query
  unsigned noAnswer = 0;
  std::map<string, unsigned> silent; // state -> the cycle in which the adapter does not answer
  bool filter = false;           // the adapter honours change thresholds
  struct Th { bool on = false; double hi = 0, lo = 0; };
  std::map<string, Th> th;
  std::set<string> owed;         // thresholds were set anew: a withheld value may now lie outside
  double now = 1;
  // damaged plans and libraries (profile "malformed")
  unsigned malform = 0;          // percent of environment events
  vector<string> planTexts;
  std::map<string, string> libTexts;
  vector<std::pair<P::NodeImpl *, string>> accepted;
  bool wild = false;             // a damaged plan which was accepted is running: no model
  vector<P::Command *> wildCmds;
  vector<P::Update *> wildUpds;
  std::map<string, P::State> wildStates;

  P::Value wildValue(string const &k)
  {
    for (auto &d : STATES) if (k == d.name && choose(6)) return toValue(g.rv(typeOfKey(k)));
    if (k[0] == 'p' && k[1] == '|' && choose(6)) return toValue(g.rv(T_INT));
    return P::Value();
  }
  string damaged(string const &x)
  {
    return planmut::damage(x, 1 + (choose(3) ? 0 : choose(4)), [](unsigned n) { return choose(n); });
  }
  // A plan which breaks one rule of the language is refused; its twin, which
  // keeps the rule, is taken.
  void lawful(bool bad)
  {
    auto const &book = lawbook::rules();
    auto const &r = book[sim::choose(book.size())];
    string w = lawbook::wrapper(r, bad), plan = ndXml(g.root("U", 100));
    size_t at = plan.rfind("</NodeList></NodeBody></Node>");
    if (at == string::npos || at + 29 != plan.size()) plan = lawbook::node("NodeList", "U", "", lawbook::T("NodeList", w));
    else if (sim::choose(2)) plan.insert(at, w);
    else plan = lawbook::node("NodeList", "U0", "", lawbook::T("NodeList", w + plan));
    string gl = globals();
    gl.insert(strlen("<GlobalDeclarations>"), lawbook::globals());
    takeOrRefuse("<PlexilPlan>" + gl + plan + "</PlexilPlan>", bad, r.what);
  }
  // libraries which call each other for ever, and calls with wrong aliases
  void calls()
  {
    using namespace lawbook;
    auto lib = [&](string const &name, string const &body) {
      pugi::xml_document *doc = new pugi::xml_document;
      string x = T("PlexilPlan", body);
      if (sim::tracing()) sim::trace("library " + x + "\n");
      if (!doc->load_string(x.c_str())) sim::inconclusive("harness: library xml");
      try { return P::loadLibraryDocument(doc) != nullptr; }
      catch (std::exception const &e) { sim::violation("library-throws", "loading library " + name + " ended with an exception: " + e.what()); }
    };
    auto decls = [](string const &more) { return T("GlobalDeclarations", more); };
    string const iface = T("Interface", T("In", decl("pI", "Integer") + decl("pB", "Boolean", B()))), ask = T("LibraryNodeDeclaration", T("Name", "RecA") + iface) + T("LibraryNodeDeclaration", T("Name", "RecB"));
    auto call = [](string const &id, string const &name, string const &alias) { return node("LibraryNodeCall", id.c_str(), "", T("LibraryNodeCall", T("NodeId", name.c_str()) + alias)); };
    auto alias = [](string const &v) { return T("Alias", T("NodeParameter", "pI") + v); };
    // (both exist, so that a call of either can be written)
    if (!lib("RecA", node("Empty", "RecA", iface, "")) || !lib("RecB", node("Empty", "RecB", "", ""))) sim::violation("parse", "a lawful library was refused");
    bool bad = sim::choose(3);
    string const one = alias(I()), plan = node("NodeList", "U0", T("VariableDeclarations", lawbook::decl("uI", "Integer", I()) + lawbook::decl("uB", "Boolean")),
                                               T("NodeList", node("Empty", "U1", "", "") + call("U2", "RecA", "%")));
    auto with = [&](string const &a) { string p = plan; p.replace(p.find('%'), 1, a); return "<PlexilPlan>" + decls(ask) + p + "</PlexilPlan>"; };
    if (sim::choose(2)) {
      static char const *const wrong[] = {"<Bogus/>", "<IntegerVariable>nowhere</IntegerVariable>", "<ADD><IntegerValue>1</IntegerValue><Bogus/></ADD>", "<BooleanVariable>uB</BooleanVariable>",
                                          "<StringValue>a</StringValue>", "<AND><BooleanValue>true</BooleanValue></AND>"};
      static char const *const right[] = {"<IntegerVariable>uI</IntegerVariable>", "<ADD><IntegerValue>1</IntegerValue><IntegerVariable>uI</IntegerVariable></ADD>", "<IntegerValue>3</IntegerValue>"};
      takeOrRefuse(with(alias(bad ? wrong[sim::choose(6)] : right[sim::choose(3)])), bad, "an alias of a library call is wrong");
      return;
    }
    bool two = sim::choose(2);
    auto nest = [&](string const &name, string const &ifc, string const &kid) { return node("NodeList", name.c_str(), ifc, T("NodeList", kid)); };
    bool loaded = !two ? lib("RecA", decls(ask) + nest("RecA", iface, bad ? call("again", "RecA", one) : node("Empty", "again", "", "")))
      : lib("RecA", decls(ask) + nest("RecA", iface, nest("mid", "", call("to", "RecB", "")))) && lib("RecB", decls(ask) + nest("RecB", "", bad ? call("fro", "RecA", one) : node("Empty", "fro", "", "")));
    if (!loaded) {
      if (!bad) sim::violation("parse", "a lawful library was refused");
      sim::count("fault.damaged_library_refused");
      return;
    }
    takeOrRefuse(with(one), bad, two ? "two libraries call each other" : "a library calls itself");
  }
  void unlawful()
  {
    if (sim::choose(8) == 7) { calls(); return; }
    if (sim::choose(3)) { lawful(sim::choose(3)); return; }
    Nd *r = g.root("U", 100);
    vector<Nd *> all;
    std::function<void(Nd *)> walk = [&](Nd *n) { all.push_back(n); for (Nd *k : n->kids) walk(k); };
    walk(r);
    auto pick = [&](std::function<bool(Nd *)> f) -> Nd * { vector<Nd *> c; for (Nd *n : all) if (f(n)) c.push_back(n); return c.empty() ? nullptr : c[sim::choose(c.size())]; };
    auto ghost = [&](int t, char const *name) { VarD *v = new VarD; v->name = name; v->type = t; v->owner = r; return v; };
    auto varOf = [&](VarD *v, int t) { Ex *e = new Ex; e->op = E_VAR; e->t = t; e->var = v; return e; };
    auto one = [&](int t) { return g.cst(g.rv(t)); };
    Nd *n = nullptr;
    string rule;
    switch (sim::choose(14)) {
    case 0: rule = "a condition reads a variable nobody declared";
      n = pick([](Nd *n) { return true; });
      n->cond[sim::choose(NCOND)] = varOf(ghost(T_BOOL, "bNone"), T_BOOL);
      break;
    case 1: rule = "a condition reads a variable declared with another type";
      n = pick([](Nd *n) { for (VarD *v : n->vars) if (v->type == T_STR || v->type == T_INT) return true; return false; });
      if (n) for (VarD *v : n->vars) if (v->type == T_STR || v->type == T_INT) { VarD *w = ghost(T_BOOL, v->name.c_str()); n->cond[C_END] = varOf(w, T_BOOL); break; }
      break;
    case 2: rule = "a variable nobody declared is assigned";
      n = pick([](Nd *n) { return n->type == N_ASSIGN; });
      if (n) { n->dest = ghost(T_INT, "nNone"); n->destIdx = nullptr; n->rhs = one(T_INT); }
      break;
    case 3: rule = "a node declares two variables of one name";
      n = pick([](Nd *n) { return !n->vars.empty(); });
      if (n) n->vars.push_back(ghost(T_INT, n->vars[0]->name.c_str()));
      break;
    case 4: rule = "a condition is about a node which does not exist"; {
      n = pick([](Nd *n) { return true; });
      Nd *no = new Nd; no->id = "NoSuchNode";
      Ex *e = new Ex; e->op = E_NFUN; e->t = T_BOOL; e->ref = no; e->val = NF_FINISHED;
      n->cond[sim::choose(NCOND)] = e;
      break; }
    case 5: rule = "a library nobody has is called"; {
      n = pick([](Nd *n) { return n->type == N_EMPTY; });
      if (n) { n->type = N_LIB; n->lib = "NoSuchLibrary"; n->vars.clear(); for (Ex *&c : n->cond) c = nullptr; }
      break; }
    case 6: rule = "a call leaves out a parameter which has no default";
      n = pick([](Nd *n) { if (n->type != N_LIB) return false; for (auto &a : n->aliases) if (!a.first->hasInit) return true; return false; });
      if (n) { vector<unsigned> c; for (unsigned i = 0; i < n->aliases.size(); ++i) if (!n->aliases[i].first->hasInit) c.push_back(i); n->aliases.erase(n->aliases.begin() + c[sim::choose(c.size())]); }
      break;
    case 7: rule = "a call gives a parameter twice";
      n = pick([](Nd *n) { return n->type == N_LIB && !n->aliases.empty(); });
      if (n) n->aliases.push_back(n->aliases[sim::choose(n->aliases.size())]);
      break;
    case 8: rule = "a call gives a constant for an InOut parameter";
      n = pick([](Nd *n) { if (n->type != N_LIB) return false; for (auto &a : n->aliases) if (a.first->iface == 2 && !isArr(a.first->type)) return true; return false; });
      if (n) for (auto &a : n->aliases) if (a.first->iface == 2 && !isArr(a.first->type)) { a.second = one(a.first->type); break; }
      break;
    case 9: rule = "a call gives a value of the wrong type";
      n = pick([](Nd *n) { if (n->type != N_LIB) return false; for (auto &a : n->aliases) if (a.first->iface == 1 && a.first->type != T_STR) return true; return false; });
      if (n) for (auto &a : n->aliases) if (a.first->iface == 1 && a.first->type != T_STR) { a.second = one(T_STR); break; }
      break;
    case 10: rule = "a parameter which is only In is assigned";
      n = pick([](Nd *n) { if (n->type != N_LIST) return false; for (VarD *v : n->params) if (v->iface == 1 && !isArr(v->type)) return true; return false; });
      if (n) for (VarD *v : n->params) if (v->iface == 1 && !isArr(v->type)) {
        Nd *a = new Nd;
        a->type = N_ASSIGN; a->id = "Uin"; a->parent = n; a->dest = v; a->rhs = one(v->type);
        n->kids.push_back(a);
        break;
      }
      break;
    case 11: rule = "a mutex nobody declared is used"; {
      n = pick([](Nd *n) { return true; });
      Mx *m = new Mx; m->name = "mNone";
      n->uses.push_back(m);
      break; }
    case 12: rule = "a variable is assigned a value of another type";
      n = pick([](Nd *n) { return n->type == N_ASSIGN && !n->destIdx && (n->dest->type == T_INT || n->dest->type == T_BOOL || n->dest->type == T_REAL); });
      if (n) n->rhs = one(n->dest->type == T_BOOL ? T_INT : T_BOOL);
      break;
    default: rule = "a variable starts with a value of another type";
      n = pick([](Nd *n) { for (VarD *v : n->vars) if (v->type == T_INT || v->type == T_BOOL) return true; return false; });
      if (n) for (VarD *v : n->vars) if (v->type == T_INT || v->type == T_BOOL) { v->hasInit = true; v->init = V::str("x"); break; }
      break;
    }
    if (!n) return;
    takeOrRefuse("<PlexilPlan>" + globals() + ndXml(r) + "</PlexilPlan>", true, rule);
  }
  void takeOrRefuse(string const &x, bool bad, string const &rule)
  {
    sim::note(x.c_str());
    if (sim::tracing()) sim::trace("unlawful " + x + "\n");
    sim::event("%s: %s", bad ? "an unlawful plan" : "a lawful twin of", rule.c_str());
    pugi::xml_document doc;
    if (!doc.load_string(x.c_str())) sim::inconclusive("harness: unlawful xml");
    bool refused = false;
    string why;
    P::NodeImpl *taken = nullptr;
    try { taken = P::parsePlan(doc.document_element()); }
    catch (P::ParserException const &e) { refused = true; why = e.what(); }
    catch (P::Error const &e) { refused = true; why = e.what(); }
    catch (std::exception const &e) { sim::violation("plan-throws", string("parsing a plan ended with an exception which is no parser error: ") + e.what()); }
    if (bad && !refused) sim::violation("unlawful-taken", "a plan was taken in which " + rule);
    if (!bad && refused) sim::violation("parse", "a lawful plan was refused (twin of \"" + rule + "\"): " + why);
    if (taken) delete taken;
    sim::count(bad ? "fault.unlawful_plan" : "lawful_twins");
    sim::note("");
    noLeftover("while an unlawful plan was parsed");
  }
  // A damaged plan or library is refused with a parser error, or taken; the
  // plans which are running and the libraries which are loaded do not notice.
  void malformed()
  {
    bool lib = !libTexts.empty() && choose(2);
    string name, x;
    if (lib) {
      auto it = libTexts.begin();
      std::advance(it, choose(libTexts.size()));
      name = it->first;
      x = damaged(it->second);
    }
    else x = damaged(choose(3) || planTexts.empty() ? "<PlexilPlan>" + globals() + ndXml(g.root("M", 100)) + "</PlexilPlan>" : planTexts[choose(planTexts.size())]);
    sim::note(x.c_str());
    if (sim::tracing()) sim::trace("damaged " + x + "\n");
    pugi::xml_document *doc = new pugi::xml_document;
    if (!doc->load_string(x.c_str())) { delete doc; return; }
    if (lib) {
      P::Library const *l = nullptr;
      string id = doc->document_element().child("Node").child_value("NodeId");
      try { l = P::loadLibraryDocument(doc); }
      catch (P::Error const &) {}
      catch (P::ParserException const &) {}
      catch (std::exception const &e) { sim::violation("library-throws", string("loading a damaged library ended with an exception: ") + e.what()); }
      sim::event("damaged library %s", l ? "taken" : "refused");
      sim::count(l ? "fault.damaged_library_taken" : "fault.damaged_library_refused");
      if (l && libTexts.count(id)) loadLib(libTexts[id]);   // put the right one back
      for (auto &p : libTexts) if (!P::isLibraryLoaded(p.first.c_str())) sim::violation("library-lost", "library " + p.first + " is gone after a damaged library was loaded");
    }
    else {
      P::NodeImpl *r = nullptr;
      bool refused = false;
      try { r = P::parsePlan(doc->document_element()); }
      catch (P::ParserException const &) { refused = true; }
      catch (P::Error const &) { refused = true; }
      catch (std::exception const &e) { sim::violation("plan-throws", string("parsing a damaged plan ended with an exception which is no parser error: ") + e.what()); }
      delete doc;
      sim::event("damaged plan %s", refused ? "refused" : "taken");
      sim::count(refused ? "fault.damaged_plan_refused" : "fault.damaged_plan_taken");
      if (!refused && !r) sim::violation("plan-null", "parsing a damaged plan neither failed nor gave a plan");
      if (r) {
        if (accepted.size() < 2) accepted.push_back({r, x});
        else delete r;
      }
    }
    sim::note("");
    noLeftover("while a damaged plan was parsed");
  }
  void loadLib(string const &x)
  {
    pugi::xml_document *doc = new pugi::xml_document;
    if (!doc->load_string(x.c_str())) sim::inconclusive("harness: bad library xml");
    try {
      P::Library const *l = P::loadLibraryDocument(doc);
      if (!l && dateStates) sim::inconclusive("an operator which is not defined on a Date");
      if (!l) { if (sim::tracing()) sim::trace(x); sim::violation("parse", "a well formed library was rejected"); }
      if (malform && sim::chance(1, 4)) {
        sim::event("the same library document again");
        sim::count("fault.library_again");
        if (P::loadLibraryDocument(doc) != l) sim::violation("parse", "a library document loaded again was rejected");
      }
    }
    catch (std::exception const &e) { sim::violation("parse", string("a well formed library was rejected: ") + e.what()); }
  }
  // run the damaged plans which were accepted: nothing is known about what
  // they do, but they must not take the executive down
  void runWild()
  {
    wild = true;
    for (auto &p : accepted) {
      sim::note(p.second.c_str());
      sim::event("run a damaged plan");
      sim::count("probe.damaged_plan_run");
      exec->addPlan(p.first);
      for (unsigned r = 0; r < 8; ++r) {
        unsigned steps = 0;
        while (exec->needsStep() && ++steps < 30) {
          micro = 0;
          // an operand of the wrong type is only found when it is used: an
          // error which is reported is no crash
          try { exec->step(now); }
          catch (std::exception const &e) {
            sim::event("the executive reports %s", e.what());
            sim::count("probe.damaged_plan_error");
            sim::nontrivial();
            sim::finish();
          }
        }
        now += 0.25;
        for (unsigned i = choose(5); i--;) {
          if (!wildStates.empty() && choose(2)) {
            auto it = wildStates.begin();
            std::advance(it, choose(wildStates.size()));
            P::StateCache::instance().lookupReturn(it->second, wildValue(it->first));
          }
        }
        for (unsigned i = choose(5); i-- && !wildCmds.empty();) {
          P::Command *c = wildCmds[choose(wildCmds.size())];
          if (choose(2)) P::commandHandleReturn(c, (P::CommandHandleValue) (P::NO_COMMAND_HANDLE + 1 + choose(P::COMMAND_HANDLE_MAX - P::NO_COMMAND_HANDLE - 1)));
          else if (choose(2)) P::commandReturn(c, P::Value());
          else P::commandAbortAcknowledge(c, choose(2));
        }
        for (unsigned i = choose(3); i-- && !wildUpds.empty();) wildUpds[choose(wildUpds.size())]->acknowledge(choose(2));
      }
      wildCmds.clear();
      wildUpds.clear();
      exec->deleteFinishedPlans();
      if (!exec->allPlansFinished()) break;
    }
    sim::note("");
  }

  string keyOfState(P::State const &s)
  {
    string k = s.name();
    for (size_t i = 0; i < s.parameterCount(); ++i) k += "|" + show(fromValue(s.parameter(i)));
    return k;
  }
  static int typeOfKey(string const &k)
  {
    switch (k[0]) { case 'a': return T_ARR + typeOfKey(k.substr(1)); case 'b': return T_BOOL; case 'r': return T_REAL; case 's': return T_STR; default: return T_INT; }
  }
  V fresh(string const &k)
  {
    if (chance(1, 12)) return V::unk(typeOfKey(k));
    return g.rv(typeOfKey(k));
  }
  // ---- Dispatcher
  void lookupNow(P::State const &s, P::LookupReceiver *r) override
  {
    if (wild) { wildStates[keyOfState(s)] = s; if (choose(5)) r->update(wildValue(keyOfState(s))); else r->setUnknown(); return; }
    string k = keyOfState(s);
    stateOf[k] = s;
    auto it = truth.find(k);
    if (it == truth.end()) it = truth.insert(std::make_pair(k, chance(1, 10) ? V::unk(typeOfKey(k)) : g.rv(typeOfKey(k)))).first;
    else if (drift && chance(drift, 100)) { it->second = fresh(k); sim::count("env.drift"); }
    V v = it->second;
    // (an adapter which does not answer stays silent for the rest of the step)
    if (silent[k] == m.cycle) v = V();
    else if (noAnswer && chance(noAnswer, 100)) { v = V(); silent[k] = m.cycle; sim::count("fault.lookup_no_answer"); }
    sim::event("lookupNow %s -> %s", k.c_str(), v.t == T_NONE ? "(none)" : show(v).c_str());
    bool bare = !v.k && v.t != T_NONE && choose(2);
    if (bare) v.t = T_SETUNKNOWN;
    m.answers[k].push_back(v);
    if (v.t == T_NONE) return;
    if (bare) r->setUnknown();
    else r->update(toValue(v));
  }
  void setThresholds(P::State const &s, P::Real hi, P::Real lo) override { setTh(s, hi, lo); }
  void setThresholds(P::State const &s, P::Integer hi, P::Integer lo) override { setTh(s, hi, lo); }
  void setTh(P::State const &s, double hi, double lo)
  {
    if (wild) return;
    string k = keyOfState(s);
    sim::event("setThresholds %s %.2f %.2f", k.c_str(), hi, lo);
    Th &t = th[k];
    t.on = true; t.hi = hi; t.lo = lo;
    owed.insert(k);
    sim::count("env.thresholds");
  }
  void clearThresholds(P::State const &s) override
  {
    if (wild) return;
    string k = keyOfState(s);
    sim::event("clearThresholds %s", k.c_str());
    th[k].on = false;
  }
  Nd *nodeOf(P::Command *c)
  {
    auto it = c2m.find(c);
    if (it == c2m.end()) sim::violation("unknown-command", "the adapter was given a command no live plan contains");
    return it->second;
  }
  void executeCommand(P::Command *c) override
  {
    if (wild) { c->getArgValues(); wildCmds.push_back(c); return; }
    Sent s;
    s.n = nodeOf(c);
    s.name = c->getName();
    for (P::Value const &v : c->getArgValues()) s.args.push_back(fromValue(v));
    sim::event("execute %s (%s, %zu args)", mpath(s.n).c_str(), s.name.c_str(), s.args.size());
    sentLog.push_back(s);
    CmdEnv &e = cmds[s.n];
    e.n = s.n; e.cmd = c; e.pos = 0; e.aborting = false;
    script(e);
  }
  void reportCommandArbitrationFailure(P::Command *c) override
  {
    if (wild) { wildCmds.push_back(c); return; }
    Nd *n = nodeOf(c);
    sim::event("denied %s", mpath(n).c_str());
    rejLog.push_back(n);
    CmdEnv &e = cmds[n];
    e.n = n; e.cmd = c; e.pos = 0; e.aborting = false;
    e.script.clear();
    e.script.push_back(Reply{0, H_DENIED, V(), false});
    sim::count("probe.denied");
  }
  void invokeAbort(P::Command *c) override
  {
    if (wild) { wildCmds.push_back(c); return; }
    Nd *n = nodeOf(c);
    sim::event("abort %s", mpath(n).c_str());
    abortLog.push_back(n);
    CmdEnv &e = cmds[n];
    e.n = n; e.cmd = c; e.aborting = true;
    // the adapter may still deliver what it owed, before or after the acknowledgement
    vector<Reply> tail(e.script.begin() + std::min(e.pos, e.script.size()), e.script.end());
    e.script.clear();
    e.pos = 0;
    if (chance(1, 5)) { e.script.push_back(Reply{2, 0, V(), false}); sim::count("fault.abort_refused"); }
    if (chance(1, 4)) { for (auto &r : tail) e.script.push_back(r); sim::count("fault.reply_during_abort"); }
    e.script.push_back(Reply{2, 0, V(), true});
    if (chance(1, 4)) { for (auto &r : tail) e.script.push_back(r); sim::count("fault.reply_after_abort"); }
    sim::count("probe.abort");
  }
  void executeUpdate(P::Update *u) override
  {
    if (wild) { wildUpds.push_back(u); return; }
    auto it = u2m.find(u);
    if (it == u2m.end()) sim::violation("unknown-update", "the adapter was given an update no live plan contains");
    UpdSent s;
    s.n = it->second;
    for (auto const &p : u->getPairs()) s.pairs[p.first] = fromValue(p.second);
    sim::event("update %s %zu", mpath(s.n).c_str(), s.pairs.size());
    updLog.push_back(s);
    upds[s.n] = UpdEnv{s.n, u, false};
    sim::count("probe.update");
  }
  void script(CmdEnv &e)
  {
    e.script.clear();
    if (chance(1, 3)) e.script.push_back(Reply{0, H_SENT, V(), false});
    if (chance(1, 3)) e.script.push_back(Reply{0, chance(1, 2) ? (int) H_RCVD : (int) H_ACCEPTED, V(), false});
    Reply fin{0, H_SUCCESS, V(), false};
    unsigned w = weighted({10, 3, 2, 2, 1, 2});
    static const int f[] = {H_SUCCESS, H_FAILED, H_DENIED, H_INTERFACE_ERROR, H_SENT, H_NONE};
    fin.handle = f[w];
    if (w >= 1 && w <= 3) sim::count("fault.command_failed");
    if (w == 5) sim::count("fault.command_silent");
    Reply val{1, 0, V(), false};
    bool hasVal = e.n->dest && chance(4, 5);
    if (hasVal) {
      VarD *d = Model::base(e.n->dest);
      int t = e.n->destIdx ? eltOf(d->type) : d->type;
      val.val = chance(1, 10) ? V::unk(t) : isArr(t) ? g.rvArr(t, 1 + choose(d->size ? d->size : 3), true) : g.rv(t);
    }
    bool after = chance(1, 3);
    if (hasVal && !after) e.script.push_back(val);
    if (fin.handle != H_NONE) e.script.push_back(fin);
    if (hasVal && after) { e.script.push_back(val); sim::count("fault.value_after_handle"); }
    if (chance(1, 6) && !e.script.empty()) { e.script.push_back(e.script[choose(e.script.size())]); sim::count("fault.duplicate_reply"); }
  }
  // ---- listener
  void notifyOfTransitions(vector<P::NodeTransition> const &b) override
  {
    if (wild) {
      if (++micro > 400) { sim::count("probe.cyclic"); stop(); }
      // the known finding of P02: what becomes of the child is anybody's guess
      for (auto &t : b) if (t.newState != P::INACTIVE_STATE && t.newState != P::WAITING_STATE && t.oldState == P::WAITING_STATE)
        for (auto &u : b) if (u.oldState == P::FINISHING_STATE && u.node == t.node->getParent()) sim::inconclusive("list ended over a starting child");
      return;
    }
    ++batches;
    if (++micro > 400) sim::inconclusive("micro-steps");
    if (!inStep) sim::violation("transition-outside-step", "node transitions were reported outside a step");
    if (m.endsStep()) sim::violation("step-not-ended", "nodes kept changing state after an assignment or command was queued in the same step");
    struct Rec { Nd *n; int o, s; };
    vector<Rec> recs;
    std::set<Nd *> in;
    for (auto const &t : b) {
      auto it = r2m.find(t.node);
      if (it == r2m.end()) sim::violation("unknown-node", "transition of a node that belongs to no live plan");
      Rec r{it->second, (int) t.oldState - 1, (int) t.newState - 1};
      if (!in.insert(r.n).second) sim::violation("double-transition", "node " + mpath(r.n) + " changed state twice in one micro step");
      recs.push_back(r);
    }
    std::set<Nd *> wants;
    vector<Nd *> contend;
    for (Nd *n : m.nodes) {
      bool can = m.dest(n);
      bool res = can && m.needsResources(n);
      if (res) { contend.push_back(n); continue; }
      if (can && !in.count(n) && !m.mayDelay(n))
        sim::violation("missed-transition", "node " + mpath(n) + " should go " + NSN[n->st] + " -> " + NSN[n->nst] + " and did not");
      if (!can && in.count(n)) {
        string got;
        for (auto &r : recs) if (r.n == n) got = string(NSN[r.o]) + " -> " + NSN[r.s];
        sim::violation("illegal-transition", "node " + mpath(n) + " went " + got + " with no condition calling for it");
      }
    }
    // contention for variables and mutexes: the winners must be a greedy
    // choice by priority among the eligible nodes
    std::stable_sort(contend.begin(), contend.end(), [](Nd *a, Nd *b) { return a->prio < b->prio; });
    for (size_t i = 0; i < contend.size();) {
      size_t j = i;
      while (j < contend.size() && contend[j]->prio == contend[i]->prio) ++j;
      for (auto &r : recs)
        for (size_t k = i; k < j; ++k)
          if (contend[k] == r.n) {
            if (!m.canAcquire(r.n))
              sim::violation("exclusion", "node " + mpath(r.n) + " started executing although a variable or mutex it needs is held");
            m.acquire(r.n);
          }
      for (size_t k = i; k < j; ++k)
        if (!in.count(contend[k])) {
          if (m.canAcquire(contend[k]))
            sim::violation("contention-missed", "node " + mpath(contend[k]) + " is ready, everything it needs is free, no better node claimed it, and it did not start");
          contend[k]->blocked = true;
          sim::count("probe.contention_blocked");
        }
      if (j - i > 0 && contend.size() > 1) sim::count("probe.contention");
      i = j;
    }
    for (auto &r : recs) {
      if (r.o != r.n->st || r.s != r.n->nst)
        sim::violation("wrong-transition", "node " + mpath(r.n) + " reported " + NSN[r.o] + " -> " + NSN[r.s] + ", expected " + NSN[r.n->st] + " -> " + NSN[r.n->nst]);
    }
    for (auto &r : recs) {
      sim::event("%s %s -> %s", mpath(r.n).c_str(), NSN[r.o], NSN[r.s]);
      if (r.s == S_WAITING && r.o == S_ITER) sim::count("probe.repeat");
      if (r.n->type == N_LIB && r.s == S_EXECUTING) sim::count("probe.library");
      if (r.s == S_FAILING) sim::count("probe.failing");
      ++transitions;
      sim::cover(sim::mix(sim::mix(r.n->type * 64 + r.o * 8 + r.s, r.n->nout * 16 + r.n->nfail), r.n->parent ? r.n->parent->st * 8 + r.n->parent->type : 99));
      m.transition(r.n);
    }
    if (m.zombie) {
      if (string(sim::prop) == "P02")
        sim::violation("child-starts-as-list-ends", "a list node left FINISHING in the very micro step in which its waiting child started: the child goes on below a list which has ended");
      sim::inconclusive("list ended over a starting child");
    }
    for (auto &r : recs) {
      P::Node *n = m2r[r.n];
      int st = (int) n->getState() - 1, out = (int) n->getOutcome() - 16, fl = (int) n->getFailureType() - 32;
      if (st != r.n->st || out != r.n->out || fl != r.n->fail)
        sim::violation("wrong-outcome", "node " + mpath(r.n) + " is " + NSN[st] + "/" + NON[out] + "/" + FTN[fl] + ", expected " +
                       NSN[r.n->st] + "/" + NON[r.n->out] + "/" + FTN[r.n->fail]);
    }
    noLeftover("during node transitions");
    checkVars("after node transitions");
    snapshotCover();
  }
  void checkVars(const char *when)
  {
    for (Nd *n : m.nodes)
      for (VarD *v : n->vars) {
        V got = fromValue(v2r[v]->toValue()), exp = m.varVal(v);
        if (got.k != exp.k || (got.k && !sameVal(got, exp)))
          sim::violation("variable", "variable " + v->name + " of node " + mpath(n) + " is " + show(got) + " " + when + ", expected " + show(exp));
      }
  }
  void snapshotCover()
  {
    uint64_t h = 0;
    for (Nd *n : m.nodes) h = sim::mix(h, n->st * 40 + n->out * 8 + n->fail);
    sim::cover(h);
  }
  void noLeftover(const char *where)
  {
    for (auto &a : m.answers)
      if (!a.second.empty())
        sim::violation("lookup-requery", "state " + a.first + " was queried " + where + " although its value was already current in this step");
  }
  void notifyOfAssignment(P::Expression const *, string const &name, P::Value const &v) override
  {
    if (wild) return;
    V x = fromValue(v);
    sim::event("assign %s = %s", name.c_str(), show(x).c_str());
    assignLog.push_back(std::make_pair(name, x));
  }
  bool anyEligible(string *who)
  {
    for (Nd *n : m.nodes)
      if (m.dest(n)) {
        if (m.mayDelay(n)) continue;
        if (m.needsResources(n) && !m.canAcquire(n)) { n->blocked = true; continue; }
        if (who) *who = mpath(n) + " (" + NSN[n->st] + " -> " + NSN[n->nst] + ")";
        return true;
      }
    return false;
  }
  template <class T> static string names(vector<T> const &v) { string s; for (auto *n : v) s += mpath(n) + " "; return s; }
  void stepComplete(unsigned cyc) override
  {
    if (wild) return;
    string who;
    if (!m.endsStep() && anyEligible(&who))
      sim::violation("step-ended-early", "the step ended while node " + who + " could still change state");
    if (cyc != m.cycle) sim::violation("cycle-count", "step number is " + std::to_string(cyc) + ", expected " + std::to_string(m.cycle));
    ++m.cycle;
    size_t i = 0;
    auto takeAssign = [&](Nd *n, V const &v, const char *what) {
      if (i >= assignLog.size() || !sameVal(assignLog[i].second, v))
        sim::violation("assignment", string(what) + " by node " + mpath(n) + " should have stored " + show(v) +
                       (i < assignLog.size() ? ", stored " + show(assignLog[i].second) : ", nothing was stored"));
      ++i;
    };
    for (Nd *n : m.assigns) {
      V v = n->rhsVal;
      m.store(n, n->idx, v);
      n->ack = V::b(true);
      takeAssign(n, v, "assignment");
    }
    for (Nd *n : m.retracts) {
      V v = n->destIdx ? n->savedElt : Model::base(n->dest)->saved;
      if (!n->destIdx || n->eltSaved) m.store(n, n->idx, v);
      else if (i < assignLog.size()) v = assignLog[i].second; // there was nothing to put back
      n->abortC = V::b(true);
      takeAssign(n, v, "retraction");
      sim::count("probe.retract");
    }
    if (i != assignLog.size()) sim::violation("assignment", "an extra assignment was performed");
    if (m.assigns.size()) sim::count("probe.assign", m.assigns.size());
    m.assigns.clear();
    m.retracts.clear();
    assignLog.clear();
    noLeftover("after assignments");
    vector<Nd *> acc, rej;
    m.arbitrate(m.cmds, acc, rej);
    m.cmds.clear();
    vector<Nd *> sent;
    for (auto &s : sentLog) sent.push_back(s.n);
    cmpSets(sent, acc, "command-sent", "commands sent to the adapter");
    cmpSets(rejLog, rej, "command-denied", "commands denied by resource arbitration");
    for (auto &s : sentLog) {
      if (s.name != s.n->fixedName.s) sim::violation("command-name", "command of " + mpath(s.n) + " was sent as " + s.name);
      bool ok = s.args.size() == s.n->fixedArgs.size();
      for (size_t k = 0; ok && k < s.args.size(); ++k) ok = sameVal(s.args[k], s.n->fixedArgs[k]);
      if (!ok) {
        string a, b;
        for (auto &v : s.args) a += show(v) + " ";
        for (auto &v : s.n->fixedArgs) b += show(v) + " ";
        sim::violation("command-args", "command of " + mpath(s.n) + " was sent with arguments " + a + "instead of " + b);
      }
    }
    sentLog.clear();
    rejLog.clear();
    cmpSets(abortLog, m.aborts, "abort", "aborts sent to the adapter");
    abortLog.clear();
    m.aborts.clear();
    vector<Nd *> ul;
    for (auto &u : updLog) ul.push_back(u.n);
    cmpSets(ul, m.updates, "update-sent", "updates sent to the adapter");
    m.updates.clear();
    for (auto &u : updLog) {
      std::map<string, V> e;
      for (auto &p : u.n->fixedPairs) e[p.first] = p.second;
      bool ok = e.size() == u.pairs.size();
      for (auto &p : e) if (!ok || !u.pairs.count(p.first) || !sameVal(u.pairs[p.first], p.second)) { ok = false; break; }
      if (!ok) sim::violation("update-pairs", "update of " + mpath(u.n) + " carried other name-value pairs than the plan gives");
    }
    updLog.clear();
    if (!acc.empty()) sim::count("probe.command", acc.size());
    checkVars("at the end of a step");
  }
  void cmpSets(vector<Nd *> a, vector<Nd *> b, const char *cls, const char *what)
  {
    vector<Nd *> x = a, y = b;
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    if (x != y) sim::violation(cls, string(what) + ": got { " + names(a) + "}, expected { " + names(b) + "}");
  }

  // ---- environment
  void collect(Nd *n)
  {
    n->index = m.nodes.size();
    m.nodes.push_back(n);
    auto ex = [&](Ex *e, bool listens) { exLook(e, listens); };
    for (int c = 0; c < NCOND; ++c) if (n->cond[c]) ex(n->cond[c], c != C_PRE && c != C_POST);
    if (n->rhs) ex(n->rhs, false);
    if (n->destIdx) ex(n->destIdx, false);
    for (Ex *a : n->args) ex(a, false);
    for (auto &p : n->pairs) ex(p.second, false);
    for (Nd *k : n->kids) collect(k);
  }
  void exLook(Ex *e, bool listens)
  {
    if (e->op == E_LNOW || e->op == E_LCHG) {
      e->listening = listens;
      bool dyn = (e->tol && e->tol->op != E_CONST) || e->name;
      for (Ex *a : e->a) if (a->op != E_CONST) dyn = true;
      if (dyn) m.dynLookups.push_back(e);
    }
    for (Ex *a : e->a) exLook(a, listens);
    if (e->tol) exLook(e->tol, listens);
  }
  void mapNodes(Nd *n, P::NodeImpl *r)
  {
    if (r->getNodeId() != n->id) sim::violation("parse", "node " + n->id + " was built as " + r->getNodeId());
    r2m[r] = n;
    m2r[n] = r;
    if (n->type == N_CMD) c2m[static_cast<P::CommandNode *>(r)->getCommand()] = n;
    if (n->type == N_UPDATE) u2m[(P::Update *) static_cast<P::UpdateNode *>(r)->getUpdate()] = n;
    for (VarD *v : n->vars) {
      P::Expression *x = r->findLocalVariable(v->name.c_str());
      if (!x) sim::violation("parse", "node " + n->id + " was built without its variable " + v->name);
      v2r[v] = x;
    }
    auto &kids = r->getChildren();
    if (kids.size() != n->kids.size()) sim::violation("parse", "node " + n->id + " was built with a different number of children");
    for (size_t i = 0; i < n->kids.size(); ++i) mapNodes(n->kids[i], kids[i].get());
  }
  string globals()
  {
    string s = "<GlobalDeclarations>";
    for (auto &d : STATES)
      s += string("<StateDeclaration><Name>") + d.name + "</Name><Return><Name>r</Name><Type>" + (d.t == T_REAL && dateStates ? dateStates : vtName(d.t)) + "</Type>" + (isArr(d.t) ? "<MaxSize>3</MaxSize>" : "") + "</Return></StateDeclaration>";
    s += "<StateDeclaration><Name>p</Name><Return><Name>r</Name><Type>Integer</Type></Return><Parameter><Name>q</Name><Type>Integer</Type></Parameter></StateDeclaration>";
    for (Mx *x : gmx) s += "<DeclareMutex><Name>" + x->name + "</Name></DeclareMutex>";
    for (auto *l : g.libs) {
      s += "<LibraryNodeDeclaration><Name>" + l->name + "</Name><Interface>";
      string in, io;
      for (VarD *v : l->params) (v->iface == 1 ? in : io) += declXml(v);
      if (!in.empty()) s += "<In>" + in + "</In>";
      if (!io.empty()) s += "<InOut>" + io + "</InOut>";
      s += "</Interface></LibraryNodeDeclaration>";
    }
    return s + "</GlobalDeclarations>";
  }
  char const *dateStates = nullptr; // Real states are declared as this type
  vector<Mx *> gmx;
  void loadLibs(unsigned n)
  {
    for (unsigned i = 0; i < n; ++i) {
      LibDef *d = g.library("Lib" + std::to_string(i));
      string x = "<PlexilPlan>" + globalsNoLib() + ndXml(d->root) + "</PlexilPlan>";
      if (sim::tracing()) sim::trace("library " + x);
      loadLib(x);
      libTexts[d->name] = x;
      g.libs.push_back(d);
    }
  }
  string globalsNoLib()
  {
    auto save = g.libs;
    g.libs.clear();
    string s = globals();
    g.libs = save;
    return s;
  }
  void addPlan()
  {
    Nd *root = g.root(string(1, (char) ('A' + plansAdded)), plansAdded);
    ++plansAdded;
    string x = "<PlexilPlan>" + globals() + ndXml(root) + "</PlexilPlan>";
    if (sim::tracing()) sim::trace("plan " + x);
    sim::event("plan %016llx", (unsigned long long) sim::hashStr(x.c_str()));
    planTexts.push_back(x);
    pugi::xml_document *doc = new pugi::xml_document;
    if (!doc->load_string(x.c_str())) sim::inconclusive("harness: bad plan xml");
    P::NodeImpl *r = nullptr;
    try { r = P::parsePlan(doc->document_element()); }
    catch (std::exception const &e) {
      // some operators are not defined on dates and durations
      if (dateStates && strstr(e.what(), "no operator found")) sim::inconclusive("an operator which is not defined on a Date");
      sim::violation("parse", string("a well formed plan was rejected: ") + e.what());
    }
    if (!r) sim::violation("parse", "a well formed plan was rejected");
    delete doc;
    instantiate(root, g.libs, root->plan);
    collect(root);
    mapNodes(root, r);
    roots.push_back(root);
    if (!exec->addPlan(r)) sim::violation("parse", "the executive refused a plan");
    root->tp.clear();
    noLeftover("while adding a plan");
  }
  bool changeState()
  {
    string k;
    if (!stateOf.empty() && choose(6)) {
      auto it = stateOf.begin();
      std::advance(it, choose(stateOf.size()));
      k = it->first;
    }
    else {
      k = STATES[choose(g.k.pArray ? 10 : 6)].name;
      if (!stateOf.count(k)) stateOf[k] = P::State(k);
    }
    V v = fresh(k);
    truth[k] = v;
    if (filter && v.k && (v.t == T_INT || v.t == T_REAL)) {
      Th &t = th[k];
      if (t.on && v.d < t.hi && v.d > t.lo) { sim::count("env.update_withheld"); sim::event("state %s = %s (within thresholds)", k.c_str(), show(v).c_str()); return true; }
    }
    if (!filter && chance(1, 25) && m.cache.count(k) && m.cache[k].typed && m.cache[k].v.t == typeOfKey(k)) { // wrong type
      V w = v.t == T_STR ? V::num(T_INT, 3) : V::str("zz");
      sim::event("state %s = %s (wrong type)", k.c_str(), show(w).c_str());
      sim::count("fault.wrong_type");
      P::StateCache::instance().lookupReturn(stateOf[k], toValue(w));
      m.entryUpdate(k, w);
      truth[k] = m.cache[k].v;
      return true;
    }
    sim::event("state %s = %s", k.c_str(), show(v).c_str());
    P::StateCache::instance().lookupReturn(stateOf[k], toValue(v));
    m.entryUpdate(k, v);
    noLeftover("on a state update");
    return true;
  }
  void reply(CmdEnv &e, Reply r)
  {
    Nd *n = e.n;
    if (!n->actActive) sim::count("fault.late_reply");
    switch (r.kind) {
    case 0:
      sim::event("handle %s %s", mpath(n).c_str(), CHN[r.handle]);
      P::commandHandleReturn(e.cmd, (P::CommandHandleValue) (P::NO_COMMAND_HANDLE + r.handle));
      if (n->actActive) n->handle = r.handle;
      break;
    case 1:
      sim::event("value %s %s", mpath(n).c_str(), show(r.val).c_str());
      P::commandReturn(e.cmd, toValue(r.val));
      if (n->actActive && n->dest) m.store(n, n->destIdx ? m.ev(n->destIdx) : V(), r.val);
      break;
    default:
      sim::event("abortack %s %d", mpath(n).c_str(), r.ack);
      P::commandAbortAcknowledge(e.cmd, r.ack);
      if (n->actActive) n->abortC = V::b(r.ack);
    }
    noLeftover("on a command reply");
    checkVars("after a command reply");
  }
  bool cmdEvent()
  {
    vector<CmdEnv *> c;
    for (Nd *n : m.nodes) { auto it = cmds.find(n); if (it != cmds.end() && it->second.pos < it->second.script.size()) c.push_back(&it->second); }
    if (c.empty()) return false;
    CmdEnv *e = c[choose(c.size())];
    Reply r = e->script[e->pos++];
    reply(*e, r);
    return true;
  }
  bool updEvent()
  {
    vector<UpdEnv *> c;
    for (Nd *n : m.nodes) { auto it = upds.find(n); if (it != upds.end() && !it->second.acked) c.push_back(&it->second); }
    if (c.empty()) return false;
    UpdEnv *e = c[choose(c.size())];
    bool ok = chance(4, 5);
    e->acked = ok || chance(1, 2);
    if (!ok) sim::count("fault.update_nack");
    updAck(e, ok);
    return true;
  }
  void updAck(UpdEnv *e, bool ok)
  {
    sim::event("updateack %s %d", mpath(e->n).c_str(), ok);
    if (!e->n->actActive) sim::count("fault.late_reply");
    e->upd->acknowledge(ok);
    if (e->n->actActive) e->n->ack = V::b(ok);
  }
  // An adapter which is given new thresholds reports at once if the state
  // already lies outside of them.
  bool payOwed()
  {
    bool any = false;
    for (string const &k : owed) {
      auto i = truth.find(k);
      Th &t = th[k];
      if (!t.on || i == truth.end() || !i->second.k || (i->second.d < t.hi && i->second.d > t.lo)) continue;
      if (m.cache.count(k) && m.cache[k].v.same(i->second)) continue;
      sim::event("state %s = %s (outside new thresholds)", k.c_str(), show(i->second).c_str());
      sim::count("env.update_owed");
      P::StateCache::instance().lookupReturn(stateOf[k], toValue(i->second));
      m.entryUpdate(k, i->second);
      noLeftover("on a state update");
      any = true;
      break;
    }
    if (!any) owed.clear();
    return any;
  }
  void drain()
  {
    unsigned n = 0;
    do {
      drain1();
      if (++n > 40) sim::inconclusive("thresholds keep moving");
    } while (filter && payOwed());
    if (filter) { checkBands(); checkThresholds(); }
  }
  // The executive looks at its input queue between steps.
  void between()
  {
    sim::count("env.event_between_steps");
    event();
    if (choose(2)) now += 0.25;
  }
  void event()
  {
    if (malform && chance(malform, 100)) { if (sim::chance(1, 3)) unlawful(); else malformed(); return; }
    switch (weighted({6, 6, 3})) {
    case 0: changeState(); break;
    case 1: if (!cmdEvent()) changeState(); break;
    default: if (!updEvent()) cmdEvent(); break;
    }
  }
  void drain1()
  {
    micro = 0;
    unsigned steps = 0;
    while (exec->needsStep()) {
      if (steps && chance(1, 8)) between();
      if (++steps > 60) { sim::count("probe.cyclic"); stop(); }
      m.now = now;
      if (sim::tracing()) sim::trace("step " + std::to_string(now) + "\n");
      inStep = true;
      exec->step(now);
      inStep = false;
      micro = 0;
    }
    string who;
    if (anyEligible(&who))
      sim::violation("stuck", "the executive reports nothing to do, but node " + who + " is ready to change state");
  }
  void checkBands()
  {
    for (Nd *n : m.nodes)
      for (int c = 0; c < NCOND; ++c)
        if (n->cond[c] && c != C_PRE && c != C_POST && Model::condActive(n, n->st, c)) bandEx(n, n->cond[c]);
  }
  // The thresholds the adapter has been given are the tightest any lookup needs, and none when no lookup needs any.
  void checkThresholds()
  {
    for (auto const &r : m.regs) {
      string const &k = r.first;
      Th const &t = th[k];
      bool band = false;
      double lo = 0, hi = 0;
      for (Ex *e : r.second)
        if (e->hasTh && e->base.k) {
          double l = e->base.d - e->thTol, h = e->base.d + e->thTol;
          lo = band ? std::max(lo, l) : l;
          hi = band ? std::min(hi, h) : h;
          band = true;
        }
      if (band && !t.on)
        sim::violation("thresholds", "lookups of " + k + " have a tolerance and the adapter was given no thresholds");
      if (band && (std::fabs(t.lo - lo) > 1e-9 || std::fabs(t.hi - hi) > 1e-9))
        sim::violation("thresholds", "the tolerances of the lookups of " + k + " call for thresholds " + std::to_string(lo) + " and " + std::to_string(hi) +
                       ", the adapter was last given " + std::to_string(t.lo) + " and " + std::to_string(t.hi));
      if (!band && t.on && r.second.empty())
        sim::violation("thresholds", "no lookup of " + k + " is active and the adapter's thresholds were not cleared");
      bool plain = !r.second.empty();
      for (Ex *e : r.second) if (e->hasTh) plain = false;
      if (t.on && plain)
        sim::violation("thresholds", "no active lookup of " + k + " has a tolerance and the adapter's thresholds were not cleared");
    }
  }
  void bandEx(Nd *n, Ex *e)
  {
    if (e->op == E_LCHG && e->refs && e->reg && e->hasTh && truth.count(e->key)) {
      V t = truth[e->key], tol = m.ev(e->tol);
      if (t.k && tol.k && !e->base.k && (t.t == T_INT || t.t == T_REAL))
        sim::violation("thresholds", "an adapter honouring the thresholds it was given left a lookup of " + e->key + " in node " + mpath(n) +
                       " unknown while the state is " + show(t));
      if (t.k && tol.k && e->base.k && std::fabs(t.d - e->base.d) > std::fabs(tol.d) + 1e-9)
        sim::violation("thresholds", "an adapter honouring the thresholds it was given left a lookup of " + e->key + " in node " + mpath(n) +
                       " at " + show(e->base) + " while the state is " + show(t) + " (tolerance " + show(tol) + ")");
      sim::count("probe.band_checked");
    }
    for (Ex *a : e->a) bandEx(n, a);
  }
  // the end of a run (also of one whose plan never quiesces: it has been checked up to here)
  void stop()
  {
    if (transitions > 8) sim::nontrivial();
    sim::count("sim.transitions", transitions);
    sim::count("sim.micro_steps", batches);
    sim::count("sim.steps", m.cycle - 1);
    sim::simtime(now);
    sim::note("teardown");
    delete exec;
    sim::finish();
  }
  void purge()
  {
    sim::event("deleteFinishedPlans");
    exec->deleteFinishedPlans();
    vector<Nd *> keep;
    for (Nd *r : roots) if (r->st != S_FINISHED) keep.push_back(r);
    std::set<int> live;
    for (Nd *r : keep) live.insert(r->plan);
    roots = keep;
    vector<Nd *> nk;
    for (Nd *n : m.nodes) {
      if (live.count(n->plan)) { nk.push_back(n); continue; }
      cmds.erase(n);
      upds.erase(n);
      P::Node *r = m2r[n];
      m2r.erase(n);
      r2m.erase(r);
    }
    m.nodes = nk;
    for (auto it = c2m.begin(); it != c2m.end();) if (!live.count(it->second->plan)) it = c2m.erase(it); else ++it;
    for (auto it = u2m.begin(); it != u2m.end();) if (!live.count(it->second->plan)) it = u2m.erase(it); else ++it;
    if (exec->allPlansFinished() != roots.empty())
      sim::violation("all-finished", roots.empty() ? "every plan finished and was removed, and the executive does not say so" : "the executive says every plan finished while one is still live");
    sim::count("probe.purge");
  }
  void tick()
  {
    now += (1 + choose(20)) * 0.25;
  }
  void settle()
  {
    sim::event("settle");
    bool any = true;
    for (unsigned round = 0; any && round < 30; ++round) {
      any = false;
      vector<Nd *> ns = m.nodes;
      for (Nd *n : ns) {
        auto c = cmds.find(n);
        if (c != cmds.end() && n->type == N_CMD && n->actActive && n->st != S_INACTIVE) {
          if (n->st == S_FAILING) { if (!n->abortC.isTrue()) { reply(c->second, Reply{2, 0, V(), true}); any = true; } }
          else if (n->handle != H_SUCCESS && n->handle != H_FAILED && n->handle != H_DENIED) { reply(c->second, Reply{0, H_SUCCESS, V(), false}); any = true; }
        }
        auto u = upds.find(n);
        if (u != upds.end() && n->type == N_UPDATE && n->actActive && !n->ack.isTrue()) { updAck(&u->second, true); any = true; }
      }
      drain();
    }
    if (any) return; // the plan keeps issuing new actions: nothing is owed
    for (Nd *n : m.nodes) {
      if (n->st == S_FAILING && n->type != N_LIST && n->type != N_LIB)
        sim::violation("stuck", "every reply was delivered and node " + mpath(n) + " is still failing");
      if (n->type == N_ASSIGN && n->st == S_EXECUTING && !n->cond[C_END])
        sim::violation("stuck", "assignment node " + mpath(n) + " never completed");
    }
  }
};

void hierarchy(World &w)
{
  // resource file: "name max [weight child]*"
  std::ostringstream s;
  s << "% simulated resources\n";
  auto decl = [&](string const &n, double mx, vector<std::pair<string, double>> const &ch) {
    s << n << " " << mx;
    for (auto &c : ch) s << " " << c.second << " " << c.first;
    s << "\n";
    w.m.maxRes[n] = mx;
    w.m.hier[n] = ch;
  };
  decl("arm", 1 + choose(2), {{"power", 0.5}});
  decl("wheel", 1, {{"power", 0.25 * (1 + choose(3))}, {"memory", 0.25}});
  decl("power", 1 + 0.5 * choose(3), {});
  if (choose(2)) decl("memory", 1, {});
  if (sim::tracing()) sim::trace("resources " + s.str());
  std::istringstream in(s.str());
  if (!w.exec->getArbiter()->readResourceHierarchy(in)) sim::inconclusive("harness: resource file");
}

void run()
{
  W = new World;
  World &w = *W;
  string p = sim::profile;
  Knobs &k = w.g.k;
  unsigned rounds = 6 + choose(24), maxPlans = 1 + choose(3), libs = 0;
  unsigned evMax = 4;
  // workload shape, varied per run (swarm)
  k.maxNodes = 3 + choose(14);
  k.maxDepth = 1 + choose(4);
  for (unsigned &c : k.pc) c = c * (1 + choose(4)) / 2;
  k.pLookup = choose(3) * 25;
  w.drift = choose(3) == 0 ? 30 : 0;
  w.noAnswer = choose(6) == 0 ? 15 : 0;
  bool res = false;
  if (p == "mutex") { k.pMutex = 60; k.wAssign = 5; k.pPrio = 70; }
  else if (p == "assign") { k.wAssign = 9; k.nVars = 2; k.pPrio = 70; k.pMutex = choose(3) ? 0 : 25; k.pc[C_INV] += 15; k.pc[C_EXIT] += 10; }
  else if (p == "resource") { k.wCmd = 10; k.pResource = 80; res = true; k.pc[C_REPEAT] += 20; }
  else if (p == "command") { k.wCmd = 10; k.pc[C_EXIT] += 12; k.pc[C_INV] += 12; k.pc[C_REPEAT] += 20; }
  else if (p == "lookup") { k.pLookup = 90; k.pTol = 60; k.pParam = 30; }
  else if (p == "threshold") { k.pLookup = 120; k.pTol = 100; k.pParam = choose(3) * 10; w.filter = true; w.drift = 0; w.noAnswer = 0; }
  else if (p == "update") { k.wUpd = 9; k.pc[C_EXIT] += 10; k.pc[C_INV] += 10; }
  else if (p == "library") { libs = 1 + choose(3); k.wLib = 8; k.pMutex = choose(3) ? 0 : 20; }
  else if (p == "hierarchy") { k.wList = 9; k.maxDepth = 4; k.maxNodes = 18; k.pc[C_EXIT] += 12; k.pc[C_INV] += 12; k.pc[C_END] += 15; }
  else if (p == "malformed") {
    w.malform = 60;
    rounds = 4 + choose(8);
    libs = choose(3);
    k.wLib = libs ? 3 : 0;
    k.pMutex = choose(2) ? 30 : 0;
    k.pParam = choose(2) * 20;
    k.pTol = 30;
    if (choose(2)) { k.pResource = 40; res = true; }
    k.wUpd += 1;
  }
  else if (p == "expr") { k.deep = 70; k.pVar = 70; k.nVars = 5; k.wAssign = 9; k.pLookup = 10 + choose(20); k.pc[C_REPEAT] += 15; k.pArray = choose(3) == 0 ? 30 : 0; w.noAnswer = choose(3) == 0 ? 25 : 0; }
  else if (p == "array") { k.pArray = 90; k.wAssign = 8; k.pc[C_INV] += 10; k.pc[C_EXIT] += 8; k.pSafe = choose(3) * 30; }
  else if (p == "repeat") { k.pc[C_REPEAT] = 70; k.wList = 5; k.wAssign = 6; }
  else { // everything together
    k.pMutex = choose(3) == 0 ? 30 : 0;
    libs = choose(3);
    k.wLib = libs ? 2 : 0;
    if (choose(3) == 0) { k.pResource = 40; res = true; }
    if (choose(3) == 0) k.pParam = 20;
  }
  if (p != "malformed" && p != "array") {
    if (choose(5) == 0) k.pArray = 20 + choose(60);
    if (choose(3) == 0) k.pSafe = 40;
  }
  if (p != "malformed" && chance(1, 8)) w.dateStates = choose(2) ? "Date" : "Duration";
  w.exec = P::makePlexilExec();
  P::g_exec = w.exec;
  P::g_dispatcher = &w;
  w.exec->setDispatcher(&w);
  w.exec->setExecListener(&w);
  if (res) hierarchy(w);
  if (k.pMutex && choose(2)) for (int i = 0; i < 2; ++i) { Mx *x = new Mx; x->name = "gm" + std::to_string(i); w.gmx.push_back(x); }
  w.g.globalMx = w.gmx;
  if (libs) w.loadLibs(libs);
  w.addPlan();
  w.drain();
  for (unsigned r = 0; r < rounds; ++r) {
    if (w.plansAdded < maxPlans && chance(1, 5)) w.addPlan();
    unsigned nev = 1 + choose(evMax);
    for (unsigned i = 0; i < nev; ++i) {
      w.event();
    }
    w.tick();
    w.drain();
    if (chance(1, 6)) w.purge();
  }
  w.settle();
  w.purge();
  if (!w.accepted.empty()) w.runWild();
  w.stop();
}
} // namespace

int main(int argc, char **argv) { return sim::runnerMain(argc, argv, "exec", run); }
