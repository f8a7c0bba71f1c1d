// Independent reference interpreter for plan_model.hh ASTs.  It follows the
// PLEXIL semantics document; it is driven in lockstep with the real executive.
#ifndef PLAN_EXEC_MODEL_HH
#define PLAN_EXEC_MODEL_HH
#include "plan_model.hh"

namespace pm {
enum { ALWAYS_LISTENS = 1 };

struct Entry { bool typed = false; V v; unsigned ts = 0; };
struct Alloc { string name; double weight; bool rel; };

struct Model {
  std::map<string, Entry> cache;
  std::map<string, std::deque<V>> answers;   // adapter answers to lookupNow not yet explained
  std::map<string, vector<Ex *>> regs;       // registered lookup occurrences per state
  unsigned cycle = 1;
  double now = 0;
  vector<Nd *> nodes;                        // every node of every live plan
  vector<Nd *> assigns, retracts, cmds, aborts, updates; // queued for the end of the step
  vector<Ex *> dynLookups;                   // lookups whose key or tolerance is not constant
  std::map<string, double> maxRes;
  std::map<string, vector<std::pair<string, double>>> hier;
  std::map<string, double> allocated;
  std::map<Nd *, vector<Alloc>> held;
  bool zombie = false;
  string why;

  // ---- three-valued evaluation
  V ev(Ex *e) const
  {
    switch (e->op) {
    case E_CONST: return e->c;
    case E_VAR: return varVal(e->var);
    case E_LNOW: case E_LCHG: return lookupVal(e);
    case E_AND: {
      bool u = false;
      for (Ex *x : e->a) { V v = ev(x); if (!v.k) u = true; else if (!v.d) return V::b(false); }
      return u ? V::unk(T_BOOL) : V::b(true);
    }
    case E_OR: {
      bool u = false;
      for (Ex *x : e->a) { V v = ev(x); if (!v.k) u = true; else if (v.d) return V::b(true); }
      return u ? V::unk(T_BOOL) : V::b(false);
    }
    case E_XOR: {
      bool r = false, k = true;
      for (Ex *x : e->a) { V v = ev(x); if (!v.k) k = false; r = r != (v.d != 0); }
      return k ? V::b(r) : V::unk(T_BOOL);
    }
    case E_NOT: { V v = ev(e->a[0]); return v.k ? V::b(v.d == 0) : v; }
    case E_GT: case E_GE: case E_LT: case E_LE: case E_EQN: case E_NEN: case E_EQB: case E_NEB: case E_EQS: case E_NES: {
      V l = ev(e->a[0]), r = ev(e->a[1]);
      if (!l.k || !r.k) return V::unk(T_BOOL);
      if (l.t == T_STR && e->op <= E_LE) { int c = l.s.compare(r.s); l.d = c < 0 ? -1 : c > 0; r.d = 0; }
      switch (e->op) {
      case E_GT: return V::b(l.d > r.d);
      case E_GE: return V::b(l.d >= r.d);
      case E_LT: return V::b(l.d < r.d);
      case E_LE: return V::b(l.d <= r.d);
      case E_EQN: case E_EQB: return V::b(l.d == r.d);
      case E_NEN: case E_NEB: return V::b(l.d != r.d);
      case E_EQS: return V::b(l.s == r.s);
      default: return V::b(l.s != r.s);
      }
    }
    case E_ISKNOWN: return V::b(ev(e->a[0]).k);
    case E_ADD: case E_SUB: case E_MUL: case E_MAX: case E_MIN: {
      V l = ev(e->a[0]);
      if (!l.k) return V::unk(e->t);
      double d = l.d;
      if (e->a.size() == 1 && e->op == E_SUB) d = -d;
      bool k = true;
      for (size_t i = 1; i < e->a.size(); ++i) {
        V r = ev(e->a[i]);
        if (!r.k) k = false;
        d = e->op == E_ADD ? d + r.d : e->op == E_SUB ? d - r.d : e->op == E_MUL ? d * r.d : e->op == E_MAX ? std::max(d, r.d) : std::min(d, r.d);
      }
      return k ? V::num(e->t, d + 0.0) : V::unk(e->t);
    }
    case E_DIV: case E_MOD: {
      V l = ev(e->a[0]), r = ev(e->a[1]);
      if (!l.k || !r.k || r.d == 0) return V::unk(e->t);
      if (e->op == E_MOD) return V::num(e->t, std::fmod(l.d, r.d) + 0.0);
      double d = l.d / r.d;
      if (e->t == T_INT) { d = std::trunc(d); if (d > 2147483647.0) return V::unk(T_INT); }
      return V::num(e->t, d + 0.0);
    }
    case E_SQRT: { V v = ev(e->a[0]); return !v.k || v.d < 0 ? V::unk(T_REAL) : V::num(T_REAL, std::sqrt(v.d)); }
    case E_CEIL: { V v = ev(e->a[0]); return v.k ? V::num(e->t, std::ceil(v.d) + 0.0) : V::unk(e->t); }
    case E_FLOOR: { V v = ev(e->a[0]); return v.k ? V::num(e->t, std::floor(v.d) + 0.0) : V::unk(e->t); }
    case E_ROUND: { V v = ev(e->a[0]); return v.k ? V::num(e->t, std::round(v.d) + 0.0) : V::unk(e->t); }
    case E_TRUNC: { V v = ev(e->a[0]); return v.k ? V::num(e->t, std::trunc(v.d) + 0.0) : V::unk(e->t); }
    case E_R2I: {
      V v = ev(e->a[0]);
      return !v.k || v.d != std::trunc(v.d) || std::fabs(v.d) > 2147483647.0 ? V::unk(T_INT) : V::num(T_INT, v.d);
    }
    case E_STRLEN: { V v = ev(e->a[0]); return v.k ? V::num(T_INT, v.s.size()) : V::unk(T_INT); }
    case E_ABS: { V v = ev(e->a[0]); if (v.k) v.d = std::fabs(v.d); return v; }
    case E_CONCAT: {
      string s;
      for (Ex *x : e->a) { V v = ev(x); if (!v.k) return V::unk(T_STR); s += v.s; }
      return V::str(s);
    }
    case E_NSTATE: return V::b((e->ref->st == e->val) != e->neg);
    case E_NOUT: return e->ref->out == O_NO ? V::unk(T_BOOL) : V::b((e->ref->out == e->val) != e->neg);
    case E_NFAIL: return e->ref->fail == F_NO ? V::unk(T_BOOL) : V::b((e->ref->fail == e->val) != e->neg);
    case E_NHANDLE: return e->ref->handle == H_NONE ? V::unk(T_BOOL) : V::b((e->ref->handle == e->val) != e->neg);
    case E_NFUN: {
      Nd *n = e->ref;
      switch (e->val) {
      case NF_FINISHED: return V::b(n->st == S_FINISHED);
      case NF_SUCC: return V::b(n->st == S_FINISHED && n->out == O_SUCCESS);
      case NF_FAILED: return V::b(n->st == S_FINISHED && n->out == O_FAILURE);
      case NF_SKIPPED: return V::b(n->out == O_SKIPPED);
      case NF_WAITING: return V::b(n->st == S_WAITING);
      case NF_EXECUTING: return V::b(n->st == S_EXECUTING);
      case NF_INACTIVE: return V::b(n->st == S_INACTIVE);
      case NF_ITER: return V::b(n->st == S_ITER);
      case NF_POSTFAILED: return V::b(n->fail == F_POST);
      default:
        for (Nd *k : n->kids) if (k->st == S_FINISHED && k->out == O_FAILURE) return V::b(false);
        return V::b(true);
      }
    }
    case E_ELEM: {
      V i = ev(e->a[1]), ar = ev(e->a[0]);
      if (!i.k || !ar.k) return V::unk(e->t);
      if (i.d < 0 || i.d >= ar.el.size()) sim::inconclusive("harness: array index");
      return ar.el[(size_t) i.d];
    }
    case E_ASIZE: case E_AMAX: { V ar = ev(e->a[0]); return ar.k ? V::num(T_INT, ar.el.size()) : V::unk(T_INT); }
    case E_ALLK: case E_ANYK: {
      V ar = ev(e->a[0]);
      if (!ar.k) return V::unk(T_BOOL);
      size_t n = 0;
      for (V const &x : ar.el) n += x.k;
      return V::b(e->op == E_ALLK ? n == ar.el.size() : n > 0);
    }
    case E_EQA: case E_NEA: {
      V l = ev(e->a[0]), r = ev(e->a[1]);
      if (!l.k || !r.k) return V::unk(T_BOOL);
      return V::b(l.same(r) == (e->op == E_EQA));
    }
    case E_TIMEPT: {
      auto it = e->ref->tp.find(std::make_pair(e->val, e->neg));
      return it == e->ref->tp.end() ? V::unk(T_REAL) : V::num(T_REAL, it->second);
    }
    }
    return V();
  }
  V varVal(VarD *v) const
  {
    while (v->aliasVar) v = v->aliasVar;
    if (v->aliasEx) return ev(v->aliasEx);
    return v->active ? v->val : V::unk(v->type);
  }
  static VarD *base(VarD *v) { while (v->aliasVar) v = v->aliasVar; return v; }

  // ---- lookups
  bool keyOf(Ex *e, string &key) const
  {
    key = e->state;
    if (e->name) {
      V v = ev(e->name);
      if (!v.k) return false;
      key = v.s;
    }
    for (Ex *x : e->a) {
      V v = ev(x);
      if (!v.k) return false;
      key += "|" + show(v);
    }
    return true;
  }
  V lookupVal(Ex *e) const
  {
    if (!e->refs || !e->reg) return V::unk(e->t);
    if (e->hasTh) { V b = e->base; b.t = e->t; return b; }
    auto it = cache.find(e->key);
    if (it == cache.end() || !it->second.typed || !it->second.v.k) return V::unk(e->t);
    return it->second.v;
  }
  bool applyUpdate(string const &key, V const &v) // returns true if changed
  {
    Entry &en = cache[key];
    if (en.typed && v.k && v.t != en.v.t) return false; // wrong type: ignored
    if (!en.typed) {
      en.typed = true;
      en.v = V::unk(v.t);
      if (!v.k) { en.ts = cycle; return false; }
    }
    if (!v.k) {
      bool was = en.v.k;
      en.v.k = false;
      en.ts = cycle;
      return was;
    }
    en.ts = cycle;
    if (en.v.k && en.v.same(v)) return false;
    en.v = v;
    return true;
  }
  void band(Ex *e)
  {
    if (e->op != E_LCHG || !e->tol || !e->refs) return;
    V tol = ev(e->tol);
    if (tol.k) { tol.d = std::fabs(tol.d); if (e->t == T_INT) tol.d = std::ceil(tol.d); }
    auto it = cache.find(e->key);
    bool have = e->reg && it != cache.end() && it->second.typed;
    V val = have ? it->second.v : V::unk(e->t);
    if (e->hasTh) {
      if (!tol.k) { e->hasTh = false; return; }
      e->thTol = tol.d;
      bool exceeded;
      if (!val.k) exceeded = e->base.k;
      else exceeded = !e->base.k || val.d >= e->base.d + tol.d || val.d <= e->base.d - tol.d;
      if (exceeded) e->base = val;
    }
    else if (val.k && tol.k) { e->hasTh = true; e->base = val; e->thTol = tol.d; }
  }
  void entryUpdate(string const &key, V const &v)
  {
    if (applyUpdate(key, v))
      for (Ex *e : regs[key]) band(e);
  }
  void doRegister(Ex *e)
  {
    if (e->reg) return;
    string k;
    if (!keyOf(e, k)) return;
    e->key = k;
    e->reg = true;
    regs[k].push_back(e);
    auto it = cache.find(k);
    if (it == cache.end() || !it->second.typed || it->second.ts < cycle) {
      auto &q = answers[k];
      if (q.empty())
        sim::violation("lookup-not-queried", "the plan started using state " + k + " and its value was not obtained from the adapter in this step");
      V v = q.front();
      q.pop_front();
      if (v.t == T_SETUNKNOWN) {
        auto en = cache.find(k);
        if (en != cache.end() && en->second.typed) entryUpdate(k, V::unk(en->second.v.t));
      }
      else if (v.t != T_NONE) entryUpdate(k, v); // T_NONE: the adapter did not answer
    }
    band(e);
  }
  void unregister(Ex *e)
  {
    if (!e->reg) return;
    auto &v = regs[e->key];
    v.erase(std::find(v.begin(), v.end(), e));
    e->reg = false;
    e->hasTh = false;
  }
  void activate(Ex *e)
  {
    if (!e) return;
    activate(e->name);
    for (Ex *x : e->a) activate(x);
    if (e->tol) activate(e->tol);
    if (e->op == E_LNOW || e->op == E_LCHG)
      if (e->refs++ == 0) doRegister(e);
  }
  void deactivate(Ex *e)
  {
    if (!e) return;
    if (e->op == E_LNOW || e->op == E_LCHG)
      if (--e->refs == 0) unregister(e);
    deactivate(e->name);
    for (Ex *x : e->a) deactivate(x);
    if (e->tol) deactivate(e->tol);
  }
  // an expression some lookup depends on may have changed
  void refreshLookups()
  {
    for (Ex *e : dynLookups) {
      if (!e->refs || !e->listening) continue;
      string k;
      bool ok = keyOf(e, k);
      if (e->reg && (!ok || k != e->key)) unregister(e);
      if (ok && !e->reg) doRegister(e);
      band(e);
    }
  }

  // ---- node conditions
  static bool condActive(Nd *n, int st, int c)
  {
    bool list = n->isList();
    switch (c) {
    case C_SKIP: case C_START: case C_PRE: return st == S_WAITING;
    case C_EXIT:
      return st == S_WAITING || st == S_EXECUTING || (st == S_FINISHING && (list || n->type == N_CMD)) || (st == S_FAILING && list);
    case C_INV:
      return st == S_EXECUTING || (st == S_FINISHING && (list || n->type == N_CMD)) || (st == S_FAILING && list);
    case C_END: return st == S_EXECUTING || (list && (st == S_FINISHING || st == S_FAILING));
    case C_POST: return list || n->type == N_CMD ? st == S_FINISHING : st == S_EXECUTING;
    default: return st == S_ITER;
    }
  }
  static bool bodyActive(Nd *n, int st)
  {
    return st == S_EXECUTING || st == S_FINISHING || st == S_FAILING;
  }
  V cv(Nd *n, int c) const { return ev(n->cond[c]); }
  bool condTrue(Nd *n, int c, bool dflt) const { return n->cond[c] ? cv(n, c).isTrue() : dflt; }
  bool condFalse(Nd *n, int c) const { return n->cond[c] && cv(n, c).isFalse(); }
  bool ancExit(Nd *n) const { for (Nd *p = n->parent; p; p = p->parent) if (condTrue(p, C_EXIT, false)) return true; return false; }
  bool ancInvFalse(Nd *n) const { for (Nd *p = n->parent; p; p = p->parent) if (condFalse(p, C_INV)) return true; return false; }
  bool ancEnd(Nd *n) const
  {
    for (Nd *p = n->parent; p; p = p->parent)
      if (condTrue(p, C_END, false)) return true;
    return false;
  }
  bool kidsDone(Nd *n, bool waitingOk) const
  {
    for (Nd *k : n->kids) if (!(k->st == S_FINISHED || (waitingOk && k->st == S_WAITING))) return false;
    return true;
  }
  void set(Nd *n, int st, int out = O_NO, int fail = F_NO) { n->nst = st; n->nout = out; n->nfail = fail; }
  bool endTrue(Nd *n) const
  {
    if (n->isList()) return n->cond[C_END] ? cv(n, C_END).isTrue() : kidsDone(n, false);
    if (n->type == N_CMD && n->cond[C_END]) {
      Ex *e = n->cond[C_END];
      if (!(e->op == E_CONST && e->c.isTrue())) {
        if (n->handle == H_DENIED || n->handle == H_FAILED || n->handle == H_INTERFACE_ERROR) return true;
        return cv(n, C_END).isTrue();
      }
      return true;
    }
    if (n->type == N_UPDATE) return n->ack.isTrue() && condTrue(n, C_END, true);
    return condTrue(n, C_END, true);
  }
  bool fourChecks(Nd *n)
  {
    if (ancExit(n)) { set(n, S_FAILING, O_INTERRUPTED, F_PARENT_EXITED); return true; }
    if (condTrue(n, C_EXIT, false)) { set(n, S_FAILING, O_INTERRUPTED, F_EXITED); return true; }
    if (ancInvFalse(n)) { set(n, S_FAILING, O_FAILURE, F_PARENT_FAILED); return true; }
    if (condFalse(n, C_INV)) { set(n, S_FAILING, O_FAILURE, F_INV); return true; }
    return false;
  }
  void iterEnd(Nd *n)
  {
    if (n->cond[C_POST] && !cv(n, C_POST).isTrue()) set(n, S_ITER, O_FAILURE, F_POST);
    else set(n, S_ITER, O_SUCCESS);
  }
  void fromFailing(Nd *n)
  {
    set(n, n->fail == F_PARENT_FAILED || n->fail == F_PARENT_EXITED ? S_FINISHED : S_ITER);
  }
  // next state of one node on the current snapshot
  bool dest(Nd *n)
  {
    n->nst = -1; n->nout = O_NO; n->nfail = F_NO;
    switch (n->st) {
    case S_INACTIVE:
      if (!n->parent) { set(n, S_WAITING); return true; }
      if (n->parent->st == S_FINISHED) { set(n, S_FINISHED, O_SKIPPED); return true; }
      if (n->parent->st != S_EXECUTING) return false;
      if (ancExit(n) || ancInvFalse(n) || ancEnd(n)) set(n, S_FINISHED, O_SKIPPED);
      else set(n, S_WAITING);
      return true;
    case S_WAITING:
      if (ancExit(n) || condTrue(n, C_EXIT, false) || ancInvFalse(n) || ancEnd(n) || condTrue(n, C_SKIP, false)) {
        set(n, S_FINISHED, O_SKIPPED);
        return true;
      }
      if (!condTrue(n, C_START, true)) return false;
      if (!condTrue(n, C_PRE, true)) { set(n, S_ITER, O_FAILURE, F_PRE); return true; }
      set(n, S_EXECUTING);
      return true;
    case S_EXECUTING:
      switch (n->type) {
      case N_EMPTY:
        if (ancExit(n)) { set(n, S_FINISHED, O_INTERRUPTED, F_PARENT_EXITED); return true; }
        if (condTrue(n, C_EXIT, false)) { set(n, S_ITER, O_INTERRUPTED, F_EXITED); return true; }
        if (ancInvFalse(n)) { set(n, S_FINISHED, O_FAILURE, F_PARENT_FAILED); return true; }
        if (condFalse(n, C_INV)) { set(n, S_ITER, O_FAILURE, F_INV); return true; }
        if (!endTrue(n)) return false;
        iterEnd(n);
        return true;
      case N_ASSIGN:
        if (!n->ack.isTrue()) return false;
        if (fourChecks(n)) return true;
        if (!endTrue(n)) return false;
        iterEnd(n);
        return true;
      case N_UPDATE:
        if (fourChecks(n)) return true;
        if (!endTrue(n)) return false;
        iterEnd(n);
        return true;
      default: // command, list, library call
        if (fourChecks(n)) return true;
        if (!endTrue(n)) return false;
        set(n, S_FINISHING);
        return true;
      }
    case S_FINISHING:
      if (fourChecks(n)) return true;
      if (n->type == N_CMD ? n->handle == H_NONE : !kidsDone(n, true)) return false;
      iterEnd(n);
      return true;
    case S_FAILING:
      if (n->isList() ? !kidsDone(n, true) : n->type == N_UPDATE ? !n->ack.isTrue() : !n->abortC.isTrue()) return false;
      fromFailing(n);
      return true;
    case S_ITER:
      if (ancExit(n)) { set(n, S_FINISHED, O_INTERRUPTED, F_PARENT_EXITED); return true; }
      if (ancInvFalse(n)) { set(n, S_FINISHED, O_FAILURE, F_PARENT_FAILED); return true; }
      if (ancEnd(n)) { set(n, S_FINISHED); return true; }
      if (n->cond[C_REPEAT]) {
        V v = cv(n, C_REPEAT);
        if (!v.k) return false;
        if (v.isTrue()) { set(n, S_WAITING); return true; }
      }
      set(n, S_FINISHED);
      return true;
    default: // FINISHED
      if (n->parent && n->parent->st == S_WAITING) { set(n, S_INACTIVE); return true; }
      return false;
    }
  }
  // A node which waits for a variable or mutex looks at its pre-condition again
  // when it gets another chance to start: when that is, is up to the executive.
  bool mayDelay(Nd *n) const { return n->blocked && n->st == S_WAITING && n->nst == S_ITER && n->nfail == F_PRE; }
  bool needsResources(Nd *n) const { return n->st == S_WAITING && n->nst == S_EXECUTING && (!n->uses.empty() || n->type == N_ASSIGN); }
  bool canAcquire(Nd *n) const
  {
    for (Mx *m : n->uses) if (m->holder) return false;
    if (n->type == N_ASSIGN && base(n->dest)->holder) return false;
    return true;
  }
  void acquire(Nd *n)
  {
    for (Mx *m : n->uses) m->holder = n;
    if (n->type == N_ASSIGN) base(n->dest)->holder = n;
    n->holding = true;
  }
  void release(Nd *n)
  {
    if (!n->holding) return;
    for (Mx *m : n->uses) m->holder = nullptr;
    if (n->type == N_ASSIGN) base(n->dest)->holder = nullptr;
    n->holding = false;
  }
  void setVar(VarD *v, V const &val)
  {
    v = base(v);
    if (!v->active) return;
    V x = val;
    x.t = v->type;
    fit(v, x);
    v->val = x;
    refreshLookups();
  }
  // an array with a declared size always has that size
  static void fit(VarD *v, V &x)
  {
    if (isArr(v->type) && x.k && x.el.size() < v->size) x.el.resize(v->size, V::unk(eltOf(v->type)));
  }
  void setElt(VarD *v, V const &idx, V const &val)
  {
    v = base(v);
    if (!v->active || !v->val.k || !idx.k) return;
    if (idx.d < 0 || idx.d >= v->val.el.size()) sim::inconclusive("harness: array index");
    sim::count("probe.element");
    V x = val;
    x.t = eltOf(v->type);
    v->val.el[(size_t) idx.d] = x;
    refreshLookups();
  }
  void store(Nd *n, V const &idx, V const &val)
  {
    if (n->destIdx) setElt(n->dest, idx, val);
    else setVar(n->dest, val);
  }
  // ---- the effect of one transition (n->nst, nout, nfail were computed by dest())
  void transition(Nd *n)
  {
    int o = n->st, s = n->nst;
    for (int c = 0; c < NCOND; ++c)
      if (n->cond[c] && condActive(n, o, c) && !condActive(n, s, c)) deactivate(n->cond[c]);
    bool was = bodyActive(n, o), is = bodyActive(n, s);
    if (was && !is) {
      switch (n->type) {
      case N_ASSIGN: deactivate(n->rhs); deactivate(n->destIdx); break;
      case N_CMD:
        n->actActive = false;
        releaseRes(n);
        for (Ex *x : n->args) deactivate(x);
        deactivate(n->destIdx);
        deactivate(n->cmdEx);
        for (Res &r : n->res) { deactivate(r.name); deactivate(r.prio); deactivate(r.ub); deactivate(r.rel); }
        break;
      case N_UPDATE:
        n->actActive = false;
        for (auto &p : n->pairs) deactivate(p.second);
        break;
      default: break;
      }
      for (VarD *v : n->vars) v->active = false;
      release(n);
    }
    if (s == S_FAILING) {
      if (n->type == N_ASSIGN) retracts.push_back(n);
      else if (n->type == N_CMD) aborts.push_back(n);
    }
    if (is && !was)
      for (VarD *v : n->vars) {
        v->active = true;
        v->val = v->hasInit ? v->init : isArr(v->type) && v->size ? V::arr(v->type, v->size) : V::unk(v->type);
        fit(v, v->val);
        refreshLookups();
      }
    for (int c = 0; c < NCOND; ++c)
      if (n->cond[c] && !condActive(n, o, c) && condActive(n, s, c)) activate(n->cond[c]);
    if ((o == S_FINISHED && s == S_INACTIVE) || (o == S_ITER && s == S_WAITING)) { n->out = O_NO; n->fail = F_NO; }
    if (s == S_INACTIVE) n->tp.clear();
    n->tp[std::make_pair(o, true)] = now;
    n->tp[std::make_pair(s, false)] = now;
    n->st = s;
    n->blocked = false;
    if (n->nout != O_NO) {
      n->out = n->nout;
      if (n->nfail != F_NO) n->fail = n->nfail;
    }
    if (s == S_EXECUTING) execute(n);
    if (s == S_ITER || s == S_FINISHED)
      for (Nd *k : n->kids) if (k->st != S_FINISHED && k->st != S_INACTIVE) zombie = true;
    refreshLookups();
  }
  void execute(Nd *n)
  {
    ++n->execs;
    switch (n->type) {
    case N_ASSIGN:
      n->ack = n->abortC = V::unk(T_BOOL);
      activate(n->rhs);
      activate(n->destIdx);
      n->rhsVal = ev(n->rhs);
      base(n->dest)->saved = varVal(n->dest);
      if (n->destIdx) {
        V ar = varVal(n->dest);
        n->idx = ev(n->destIdx);
        n->eltSaved = n->idx.k && ar.k;
        if (n->eltSaved) {
          if (n->idx.d < 0 || n->idx.d >= ar.el.size()) sim::inconclusive("harness: array index");
          n->savedElt = ar.el[(size_t) n->idx.d];
        }
      }
      assigns.push_back(n);
      break;
    case N_CMD:
      n->actActive = true;
      n->handle = H_NONE;
      n->abortC = V::unk(T_BOOL);
      n->fixedArgs.clear();
      activate(n->cmdEx);
      for (Ex *x : n->args) activate(x);
      for (Res &r : n->res) { activate(r.name); activate(r.prio); activate(r.ub); activate(r.rel); }
      activate(n->destIdx);
      n->fixedName = n->cmdEx ? ev(n->cmdEx) : V::str(n->cmd);
      for (Ex *x : n->args) n->fixedArgs.push_back(ev(x));
      n->fixedRes.clear();
      for (Res &r : n->res)
        n->fixedRes.push_back(FixedRes{ev(r.name), ev(r.prio), r.ub ? ev(r.ub) : V::num(T_REAL, 1), r.rel ? ev(r.rel) : V::b(true)});
      cmds.push_back(n);
      break;
    case N_UPDATE:
      n->actActive = true;
      n->ack = V::unk(T_BOOL);
      n->fixedPairs.clear();
      for (auto &p : n->pairs) activate(p.second);
      for (auto &p : n->pairs) n->fixedPairs.push_back(std::make_pair(p.first, ev(p.second)));
      updates.push_back(n);
      break;
    default: break;
    }
  }
  bool endsStep() const { return !assigns.empty() || !retracts.empty() || !cmds.empty() || !aborts.empty(); }

  // ---- resource arbitration
  void expand(string const &name, double w, bool rel, std::map<string, Alloc> &outp) const
  {
    Alloc a; a.name = name; a.weight = w; a.rel = rel;
    outp.insert(std::make_pair(name, a));
    auto it = hier.find(name);
    if (it == hier.end()) return;
    for (auto &c : it->second) expand(c.first, c.second, rel, outp);
  }
  double resMax(string const &n) const { auto it = maxRes.find(n); return it == maxRes.end() ? 1.0 : it->second; }
  void releaseRes(Nd *n)
  {
    auto it = held.find(n);
    if (it == held.end()) return;
    for (Alloc &a : it->second) if (a.rel) allocated[a.name] -= a.weight;
    held.erase(it);
  }
  void arbitrate(vector<Nd *> const &q, vector<Nd *> &acc, vector<Nd *> &rej)
  {
    struct Req { Nd *n; double prio; std::map<string, Alloc> r; };
    vector<Req> rq;
    for (Nd *n : q) {
      if (n->res.empty()) { acc.push_back(n); continue; }
      Req r; r.n = n; r.prio = n->fixedRes[0].prio.d;
      for (FixedRes &x : n->fixedRes) {
        if (!x.name.k || !x.prio.k || !x.ub.k || !x.rel.k) sim::inconclusive("harness: unknown resource value");
        expand(x.name.s, x.ub.d, x.rel.isTrue(), r.r);
      }
      rq.push_back(r);
    }
    std::stable_sort(rq.begin(), rq.end(), [](Req const &a, Req const &b) { return a.prio < b.prio; });
    // what is held now, then each request in priority order if everything it needs fits
    std::map<string, std::pair<double, double>> est; // renewable, consumable
    auto get = [&](string const &nm) -> std::pair<double, double> & {
      auto it = est.find(nm);
      if (it == est.end()) { double a = allocated.count(nm) ? allocated[nm] : 0; it = est.insert(std::make_pair(nm, std::make_pair(a, a))).first; }
      return it->second;
    };
    for (Req &r : rq) {
      auto save = est;
      bool ok = true;
      for (auto &x : r.r) {
        auto &p = get(x.first);
        if (x.second.weight < 0) p.first += x.second.weight; else p.second += x.second.weight;
        double m = resMax(x.first);
        if (p.first < 0 || p.first > m || p.second < 0 || p.second > m) { ok = false; break; }
      }
      if (!ok) { est = save; rej.push_back(r.n); continue; }
      acc.push_back(r.n);
      vector<Alloc> &h = held[r.n];
      h.clear();
      for (auto &x : r.r) { h.push_back(x.second); allocated[x.first] += x.second.weight; }
    }
  }
};
} // namespace pm
#endif
