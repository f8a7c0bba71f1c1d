// Random PLEXIL plans, their XML, and an independent reference interpreter
// for the PLEXIL execution semantics.  Shares no code with /repo.
#ifndef PLAN_MODEL_HH
#define PLAN_MODEL_HH
#include "runner.hh"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <functional>

namespace pm {
using std::string;
using std::vector;
using sim::choose;
using sim::chance;
using sim::weighted;

enum VT { T_SETUNKNOWN = -1, T_NONE = 0, T_BOOL, T_INT, T_REAL, T_STR, T_ARR }; // T_ARR + element type: arrays
inline bool isArr(int t) { return t > T_ARR; }
inline int eltOf(int t) { return t - T_ARR; }
inline const char *vtName(int t)
{
  static const char *n[] = {"None", "Boolean", "Integer", "Real", "String"};
  return n[isArr(t) ? eltOf(t) : t];
}
struct V {
  int t; bool k; double d; string s;
  vector<V> el;                 // an array's elements
  V() : t(T_NONE), k(false), d(0) {}
  static V unk(int t) { V v; v.t = t; return v; }
  static V num(int t, double d) { V v; v.t = t; v.k = true; v.d = d; return v; }
  static V str(string const &s) { V v; v.t = T_STR; v.k = true; v.s = s; return v; }
  static V b(bool x) { return num(T_BOOL, x); }
  bool isTrue() const { return k && d != 0; }
  bool isFalse() const { return k && d == 0; }
  static V arr(int t, size_t n) { V v; v.t = t; v.k = true; v.el.assign(n, unk(eltOf(t))); return v; }
  bool same(V const &o) const
  {
    if (k != o.k || (k && (d != o.d || s != o.s || el.size() != o.el.size()))) return false;
    for (size_t i = 0; k && i < el.size(); ++i) if (!el[i].same(o.el[i])) return false;
    return true;
  }
};
inline string show(V const &v)
{
  if (!v.k) return "unknown";
  if (isArr(v.t)) {
    string r = "[";
    for (V const &x : v.el) r += show(x) + " ";
    return r + "]";
  }
  if (v.t == T_STR) return "\"" + v.s + "\"";
  char b[40];
  snprintf(b, sizeof b, v.t == T_REAL ? "%.12g" : "%.0f", v.d + 0.0);
  return v.t == T_BOOL ? (v.d ? "true" : "false") : b;
}

enum NT { N_EMPTY, N_ASSIGN, N_CMD, N_UPDATE, N_LIST, N_LIB };
enum NS { S_INACTIVE, S_WAITING, S_EXECUTING, S_ITER, S_FINISHED, S_FAILING, S_FINISHING };
enum NO { O_NO, O_SUCCESS, O_FAILURE, O_SKIPPED, O_INTERRUPTED };
enum FT { F_NO, F_PRE, F_POST, F_INV, F_PARENT_FAILED, F_EXITED, F_PARENT_EXITED };
enum CH { H_NONE, H_SENT, H_ACCEPTED, H_RCVD, H_FAILED, H_DENIED, H_SUCCESS, H_ABORTED, H_ABORT_FAILED, H_INTERFACE_ERROR };
static const char *const NSN[] = {"INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"};
static const char *const NON[] = {"NO_OUTCOME", "SUCCESS", "FAILURE", "SKIPPED", "INTERRUPTED"};
static const char *const FTN[] = {"NO_FAILURE", "PRE_CONDITION_FAILED", "POST_CONDITION_FAILED", "INVARIANT_CONDITION_FAILED", "PARENT_FAILED", "EXITED", "PARENT_EXITED"};
static const char *const CHN[] = {"NONE", "COMMAND_SENT_TO_SYSTEM", "COMMAND_ACCEPTED", "COMMAND_RCVD_BY_SYSTEM", "COMMAND_FAILED", "COMMAND_DENIED", "COMMAND_SUCCESS", "COMMAND_ABORTED", "COMMAND_ABORT_FAILED", "COMMAND_INTERFACE_ERROR"};
static const char *const NTN[] = {"Empty", "Assignment", "Command", "Update", "NodeList", "LibraryNodeCall"};
enum Cond { C_SKIP, C_START, C_PRE, C_INV, C_END, C_POST, C_EXIT, C_REPEAT, NCOND };
static const char *const CN[] = {"Skip", "Start", "Pre", "Invariant", "End", "Post", "Exit", "Repeat"};

struct Nd;
struct Ex;
struct VarD {
  string name; int type = T_INT; bool hasInit = false; V init; Nd *owner = nullptr;
  unsigned size = 0;           // an array's declared size (0: none)
  int safe = 0;                // a variable which is always known, and what for
  int iface = 0;               // 1 In, 2 InOut parameter of a library node
  VarD *aliasVar = nullptr; Ex *aliasEx = nullptr; // resolved at the call
  V val, saved; bool active = false; Nd *holder = nullptr;
};
struct Mx { string name; Nd *owner = nullptr; Nd *holder = nullptr; };

enum Op { E_CONST, E_VAR, E_LNOW, E_LCHG, E_AND, E_OR, E_XOR, E_NOT, E_GT, E_GE, E_LT, E_LE, E_EQN, E_NEN, E_EQB, E_NEB, E_EQS, E_NES,
          E_ISKNOWN, E_ADD, E_SUB, E_MUL, E_MAX, E_MIN, E_ABS, E_CONCAT, E_NSTATE, E_NOUT, E_NFAIL, E_NHANDLE, E_NFUN, E_TIMEPT,
          E_ELEM, E_ASIZE, E_AMAX, E_ALLK, E_ANYK, E_EQA, E_NEA,
          E_DIV, E_MOD, E_SQRT, E_CEIL, E_FLOOR, E_ROUND, E_TRUNC, E_R2I, E_STRLEN };
static const char *const OPN[] = {"", "", "", "", "AND", "OR", "XOR", "NOT", "GT", "GE", "LT", "LE", "EQNumeric", "NENumeric", "EQBoolean", "NEBoolean",
          "EQString", "NEString", "IsKnown", "ADD", "SUB", "MUL", "MAX", "MIN", "ABS", "Concat", "", "", "", "", "", "",
          "ArrayElement", "ArraySize", "ArrayMaxSize", "ALL_KNOWN", "ANY_KNOWN", "EQArray", "NEArray",
          "DIV", "MOD", "SQRT", "CEIL", "FLOOR", "ROUND", "TRUNC", "REAL_TO_INT", "STRLEN"};
enum NFun { NF_FINISHED, NF_SUCC, NF_FAILED, NF_SKIPPED, NF_WAITING, NF_EXECUTING, NF_INACTIVE, NF_ITER, NF_NOCHILDFAILED, NF_POSTFAILED, NFUNS };
static const char *const NFN[] = {"Finished", "Succeeded", "Failed", "Skipped", "Waiting", "Executing", "Inactive", "IterationEnded", "NoChildFailed", "PostconditionFailed"};

struct Ex {
  Op op = E_CONST; int t = T_BOOL; V c; VarD *var = nullptr; vector<Ex *> a;
  Nd *ref = nullptr; string dir; int val = 0; bool neg = false;  // node references
  string state; Ex *name = nullptr; Ex *tol = nullptr;                               // lookups (a = arguments)
  // runtime of a lookup occurrence
  int refs = 0; bool reg = false; string key; bool listening = false;
  bool hasTh = false; V base; double thTol = 0; bool baseKnown = false; // tolerance band
};
struct Res { Ex *name, *prio, *ub, *rel; };
struct FixedRes { V name, prio, ub, rel; };
struct Nd {
  int type = N_EMPTY; string id; Nd *parent = nullptr; vector<Nd *> kids; Ex *cond[NCOND] = {};
  vector<VarD *> vars; vector<VarD *> params; vector<Mx *> mxDecl; vector<Mx *> uses;
  bool hasPrio = false; int prio = 100000;
  VarD *dest = nullptr; Ex *rhs = nullptr;                        // assignment
  Ex *destIdx = nullptr;                                          // to an array element
  string cmd; Ex *cmdEx = nullptr; vector<Ex *> args; vector<Res> res;                 // command
  vector<std::pair<string, Ex *>> pairs;                          // update
  string lib; vector<std::pair<VarD *, Ex *>> aliases;            // library call
  int plan = 0, index = 0;
  // runtime
  int st = S_INACTIVE, out = O_NO, fail = F_NO;
  int nst = -1, nout = O_NO, nfail = F_NO;
  double since = 0; std::map<std::pair<int, bool>, double> tp;
  bool blocked = false; // lost the contention for a variable or mutex since it began waiting
  bool actActive = false; int handle = H_NONE; V ack, abortC; V rhsVal;
  V idx, savedElt; bool eltSaved = false; // assignment to an array element
  vector<FixedRes> fixedRes;
  vector<V> fixedArgs; V fixedName; vector<std::pair<string, V>> fixedPairs; unsigned execs = 0;
  bool holding = false;
  unsigned iters = 0;
  bool isList() const { return type == N_LIST || type == N_LIB; }
};

// ---------- XML
inline string esc(string const &s) { return s; }
inline string valXml(V const &v)
{
  char b[64];
  if (isArr(v.t)) {
    string r = string("<ArrayValue Type=\"") + vtName(v.t) + "\">";
    for (V const &x : v.el) r += x.k ? valXml(x) : string("<") + vtName(v.t) + "Value>UNKNOWN</" + vtName(v.t) + "Value>";
    return r + "</ArrayValue>";
  }
  switch (v.t) {
  case T_BOOL: return string("<BooleanValue>") + (v.d ? "true" : "false") + "</BooleanValue>";
  case T_INT: snprintf(b, sizeof b, "<IntegerValue>%.0f</IntegerValue>", v.d); return b;
  case T_REAL: snprintf(b, sizeof b, "<RealValue>%.2f</RealValue>", v.d); return b;
  default: return "<StringValue>" + v.s + "</StringValue>";
  }
}
inline string varXml(VarD *v) { return isArr(v->type) ? "<ArrayVariable>" + v->name + "</ArrayVariable>" : string("<") + vtName(v->type) + "Variable>" + v->name + "</" + vtName(v->type) + "Variable>"; }
inline string refXml(Ex *e)
{
  if (e->dir == "id") return "<NodeId>" + e->ref->id + "</NodeId>";
  return "<NodeRef dir=\"" + e->dir + "\">" + (e->dir == "self" || e->dir == "parent" ? "" : e->ref->id) + "</NodeRef>";
}
inline string exXml(Ex *e)
{
  string r;
  switch (e->op) {
  case E_CONST: return valXml(e->c);
  case E_VAR: return varXml(e->var);
  case E_LNOW: case E_LCHG:
    r = e->op == E_LNOW ? "<LookupNow>" : "<LookupOnChange>";
    r += "<Name>" + (e->name ? exXml(e->name) : "<StringValue>" + e->state + "</StringValue>") + "</Name>";
    if (e->tol) r += "<Tolerance>" + exXml(e->tol) + "</Tolerance>";
    if (!e->a.empty()) {
      r += "<Arguments>";
      for (Ex *x : e->a) r += exXml(x);
      r += "</Arguments>";
    }
    return r + (e->op == E_LNOW ? "</LookupNow>" : "</LookupOnChange>");
  case E_NSTATE: case E_NOUT: case E_NFAIL: case E_NHANDLE: {
    static const char *vn[] = {"State", "Outcome", "Failure", "CommandHandle"};
    const char *w = vn[e->op - E_NSTATE];
    const char *val = e->op == E_NSTATE ? NSN[e->val] : e->op == E_NOUT ? NON[e->val] : e->op == E_NFAIL ? FTN[e->val] : CHN[e->val];
    r = e->neg ? "<NEInternal>" : "<EQInternal>";
    r += string("<Node") + w + "Variable>" + refXml(e) + "</Node" + w + "Variable>";
    r += string("<Node") + w + "Value>" + val + "</Node" + w + "Value>";
    return r + (e->neg ? "</NEInternal>" : "</EQInternal>");
  }
  case E_NFUN: return string("<") + NFN[e->val] + ">" + refXml(e) + "</" + NFN[e->val] + ">";
  case E_TIMEPT:
    return "<NodeTimepointValue>" + refXml(e) + "<NodeStateValue>" + NSN[e->val] + "</NodeStateValue><Timepoint>" +
      (e->neg ? "END" : "START") + "</Timepoint></NodeTimepointValue>";
  case E_ELEM:
    r = "<ArrayElement>";
    r += e->neg ? "<Name>" + e->a[0]->var->name + "</Name>" : exXml(e->a[0]);
    return r + "<Index>" + exXml(e->a[1]) + "</Index></ArrayElement>";
  default:
    r = string("<") + OPN[e->op] + ">";
    for (Ex *x : e->a) r += exXml(x);
    return r + "</" + OPN[e->op] + ">";
  }
}
inline string declXml(VarD *v, bool init = true)
{
  if (isArr(v->type)) {
    string r = "<DeclareArray><Name>" + v->name + "</Name><Type>" + vtName(v->type) + "</Type>";
    if (v->size) r += "<MaxSize>" + std::to_string(v->size) + "</MaxSize>";
    if (init && v->hasInit) r += "<InitialValue>" + valXml(v->init) + "</InitialValue>";
    return r + "</DeclareArray>";
  }
  string r = "<DeclareVariable><Name>" + v->name + "</Name><Type>" + vtName(v->type) + "</Type>";
  if (init && v->hasInit) r += "<InitialValue>" + valXml(v->init) + "</InitialValue>";
  return r + "</DeclareVariable>";
}
inline string destXml(Nd *n)
{
  return n->destIdx ? "<ArrayElement>" + varXml(n->dest) + "<Index>" + exXml(n->destIdx) + "</Index></ArrayElement>" : varXml(n->dest);
}
inline string ndXml(Nd *n)
{
  string r = string("<Node NodeType=\"") + NTN[n->type] + "\"><NodeId>" + n->id + "</NodeId>";
  for (int c = 0; c < NCOND; ++c)
    if (n->cond[c]) r += string("<") + CN[c] + "Condition>" + exXml(n->cond[c]) + "</" + CN[c] + "Condition>";
  if (n->hasPrio) r += "<Priority>" + std::to_string(n->prio) + "</Priority>";
  if (!n->params.empty()) {
    r += "<Interface>";
    string in, io;
    for (VarD *v : n->params) (v->iface == 1 ? in : io) += declXml(v);
    if (!in.empty()) r += "<In>" + in + "</In>";
    if (!io.empty()) r += "<InOut>" + io + "</InOut>";
    r += "</Interface>";
  }
  if (!n->vars.empty() || !n->mxDecl.empty()) {
    r += "<VariableDeclarations>";
    for (VarD *v : n->vars) r += declXml(v);
    for (Mx *m : n->mxDecl) r += "<DeclareMutex><Name>" + m->name + "</Name></DeclareMutex>";
    r += "</VariableDeclarations>";
  }
  if (!n->uses.empty()) {
    r += "<UsingMutex>";
    for (Mx *m : n->uses) r += "<Name>" + m->name + "</Name>";
    r += "</UsingMutex>";
  }
  if (n->type == N_EMPTY) return r + "</Node>";
  r += "<NodeBody>";
  switch (n->type) {
  case N_ASSIGN: {
    int dt = n->destIdx ? eltOf(n->dest->type) : n->dest->type;
    const char *rt = dt == T_BOOL ? "BooleanRHS" : dt == T_STR ? "StringRHS" : isArr(dt) ? "ArrayRHS" : "NumericRHS";
    r += "<Assignment>" + destXml(n) + "<" + rt + ">" + exXml(n->rhs) + "</" + rt + "></Assignment>";
    break;
  }
  case N_CMD:
    r += "<Command>";
    if (!n->res.empty()) {
      r += "<ResourceList>";
      for (Res &x : n->res) {
        r += "<Resource><ResourceName>" + exXml(x.name) + "</ResourceName><ResourcePriority>" + exXml(x.prio) + "</ResourcePriority>";
        if (x.ub) r += "<ResourceUpperBound>" + exXml(x.ub) + "</ResourceUpperBound>";
        if (x.rel) r += "<ResourceReleaseAtTermination>" + exXml(x.rel) + "</ResourceReleaseAtTermination>";
        r += "</Resource>";
      }
      r += "</ResourceList>";
    }
    if (n->dest) r += destXml(n);
    r += "<Name>" + (n->cmdEx ? exXml(n->cmdEx) : "<StringValue>" + n->cmd + "</StringValue>") + "</Name>";
    if (!n->args.empty()) {
      r += "<Arguments>";
      for (Ex *x : n->args) r += exXml(x);
      r += "</Arguments>";
    }
    r += "</Command>";
    break;
  case N_UPDATE:
    r += "<Update>";
    for (auto &p : n->pairs) r += "<Pair><Name>" + p.first + "</Name>" + exXml(p.second) + "</Pair>";
    r += "</Update>";
    break;
  case N_LIST:
    r += "<NodeList>";
    for (Nd *k : n->kids) r += ndXml(k);
    r += "</NodeList>";
    break;
  case N_LIB:
    r += "<LibraryNodeCall><NodeId>" + n->lib + "</NodeId>";
    for (auto &p : n->aliases) r += "<Alias><NodeParameter>" + p.first->name + "</NodeParameter>" + exXml(p.second) + "</Alias>";
    r += "</LibraryNodeCall>";
    break;
  }
  return r + "</NodeBody></Node>";
}
} // namespace pm
#endif
