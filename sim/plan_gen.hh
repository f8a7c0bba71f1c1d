// Random PLEXIL plans.
#ifndef PLAN_GEN_HH
#define PLAN_GEN_HH
#include "plan_model.hh"
namespace pm {
struct Knobs {
  unsigned maxNodes = 12, maxDepth = 3;
  // node type weights
  unsigned wEmpty = 3, wAssign = 4, wCmd = 4, wUpd = 1, wList = 3, wLib = 0;
  // per-condition probability in percent
  unsigned pc[NCOND] = {8, 45, 12, 15, 30, 12, 12, 25};
  unsigned pLookup = 25, pNodeRef = 30, pVar = 35, pConst = 6;
  unsigned pMutex = 0, pPrio = 30, pResource = 0, pTol = 30, pParam = 0, pTime = 8;
  unsigned nVars = 3;       // variables per list (max)
  bool preLookupParams = false;
  unsigned pArray = 0;      // arrays
  bool pDyn = true;
  unsigned deep = 0;        // long expressions
  unsigned pSafe = 0;       // variables which are always known: names, resources
};
static const struct { const char *name; int t; } STATES[] = {
  {"b0", T_BOOL}, {"b1", T_BOOL}, {"i0", T_INT}, {"i1", T_INT}, {"r0", T_REAL}, {"s0", T_STR},
  {"ab0", T_ARR + T_BOOL}, {"ai0", T_ARR + T_INT}, {"ar0", T_ARR + T_REAL}, {"as0", T_ARR + T_STR}};
static const unsigned ARR_STATE = 3; // the length of an array valued state
static const char *const CMDNAMES[] = {"alpha", "beta", "gamma", "delta"};
static const char *const RESNAMES[] = {"arm", "camera", "power", "memory", "wheel"};

struct LibDef { string name; Nd *root = nullptr; vector<VarD *> params; string xml; };

struct Gen {
  Knobs k;
  int plan = 0;
  unsigned count = 0;
  unsigned seq = 0;         // for unique names
  string prefix;
  vector<LibDef *> libs;    // callable libraries
  bool inLib = false;
  vector<Mx *> globalMx;

  static bool pct(unsigned p) { return p && chance(p > 100 ? 100 : p, 100); }
  Ex *mk(Op op, int t) { Ex *e = new Ex; e->op = op; e->t = t; return e; }
  // names which hide others, and interfaces of nodes which are not libraries
  void scopes(Nd *n)
  {
    for (VarD *v : n->vars) if (!v->safe && chance(1, 12)) {
      // the name of another variable: an outer one, or a parameter of a library
      vector<string> c;
      for (Nd *p = n->parent; p; p = p->parent) for (VarD *o : p->vars) if (!o->safe) c.push_back(o->name);
      for (LibDef *l : libs) for (VarD *o : l->params) c.push_back(o->name);
      if (c.empty()) break;
      string x = c[choose(c.size())];
      bool taken = false;
      for (VarD *o : n->vars) taken |= o->name == x;
      if (!taken) v->name = x;
    }
    if (n->type != N_LIST || !n->parent || !chance(1, 8)) return;
    for (unsigned i = 1 + choose(2); i--;) {
      VarD *p = new VarD;
      p->iface = 1 + choose(2);
      p->owner = n;
      vector<VarD *> c, d;
      for (int t = T_BOOL; t <= T_STR; ++t) { visible(n, false, t, p->iface == 2, c); visible(n, false, T_ARR + t, p->iface == 2, c); }
      for (VarD *v : c) {
        bool taken = v->safe;
        for (VarD *o : n->params) taken |= o->name == v->name;
        if (!taken) d.push_back(v);
      }
      if (p->iface == 1 && (d.empty() || chance(1, 4))) {
        VarD *v = mkVar(n, 1 + choose(4));       // nobody has it: its default
        p->name = v->name;
        p->type = v->type;
        p->hasInit = true;
        p->init = rv(p->type);
        p->aliasEx = cst(p->init);
      }
      else if (d.empty()) continue;
      else {
        VarD *v = d[choose(d.size())];
        p->name = v->name;
        p->type = v->type;
        p->size = v->size;
        p->aliasVar = v;
        if (chance(1, 3)) { p->hasInit = true; p->init = isArr(p->type) ? rvArr(p->type, p->size ? p->size : 1, p->type != T_ARR + T_STR) : rv(p->type); }   // not used
      }
      n->params.push_back(p);
    }
  }
  Ex *cst(V const &v) { Ex *e = mk(E_CONST, v.t); e->c = v; return e; }
  V rvArr(int t, unsigned n, bool unknowns)
  {
    V v = V::arr(t, n);
    for (V &x : v.el) if (!unknowns || choose(6)) x = rv(eltOf(t));
    return v;
  }
  V rv(int t)
  {
    if (isArr(t)) return rvArr(t, ARR_STATE, true);
    switch (t) {
    case T_BOOL: return V::b(choose(2));
    case T_INT: return V::num(T_INT, (double) choose(5) - 1);
    case T_REAL: return V::num(T_REAL, ((double) choose(17) - 4) / 4);
    default: { static const char *s[] = {"a", "b", "ab"}; return V::str(s[choose(3)]); }
    }
  }
  // variables visible to n (own locals only if own)
  void visible(Nd *n, bool own, int t, bool writable, vector<VarD *> &out)
  {
    std::set<string> seen;
    if (!own) for (VarD *v : n->vars) seen.insert(v->name);   // hides an outer one all the same
    for (Nd *p = own ? n : n->parent; p; p = p->parent) {
      for (VarD *v : p->vars) if (seen.insert(v->name).second && v->type == t && !(writable && v->safe)) out.push_back(v);
      for (VarD *v : p->params) if (seen.insert(v->name).second && v->type == t && !(writable && v->iface == 1)) out.push_back(v);
    }
  }
  // variables which never become unknown
  V rvSafe(int t, int kind)
  {
    switch (kind) {
    case 1: return V::num(T_INT, choose(4));                                                   // a priority
    case 2: return V::num(T_REAL, choose(8) == 0 ? -0.5 : (1 + choose(4)) / 4.0);              // a resource's bound
    case 3: return V::b(choose(3) != 0);                                                       // release at termination
    case 4: return V::str(CMDNAMES[choose(4)]);
    case 5: return V::str(RESNAMES[choose(5)]);
    case 6: return V::str(choose(2) ? "i0" : "i1");                                            // a state
    default: return rv(t);
    }
  }
  VarD *safeOf(Nd *n, int kind)
  {
    vector<VarD *> c;
    for (Nd *p = n->parent; p; p = p->parent)
      for (VarD *v : p->vars) if (v->safe == kind) c.push_back(v);
    return c.empty() ? nullptr : c[choose(c.size())];
  }
  static int safeType(int kind) { return kind == 1 ? T_INT : kind == 2 ? T_REAL : kind == 3 ? T_BOOL : T_STR; }
  Ex *safeEx(Nd *n, int kind)
  {
    VarD *v = pct(k.pSafe) ? safeOf(n, kind) : nullptr;
    if (!v) return cst(rvSafe(safeType(kind), kind));
    Ex *e = mk(E_VAR, v->type);
    e->var = v;
    return e;
  }
  // ---- arrays
  VarD *arrVar(Nd *n, bool own, int elt, bool writable)
  {
    vector<VarD *> vs;
    if (elt) visible(n, own, T_ARR + elt, writable, vs);
    else for (int t = T_BOOL; t <= T_STR; ++t) visible(n, own, T_ARR + t, writable, vs);
    return vs.empty() ? nullptr : vs[choose(vs.size())];
  }
  Ex *varEx(VarD *v) { Ex *e = mk(E_VAR, v->type); e->var = v; return e; }
  // an index which stays inside an array of the given size
  Ex *index(Nd *n, unsigned size, bool own, bool lk)
  {
    if (size <= 1 || chance(1, 3)) return cst(V::num(T_INT, size ? choose(size) : 0));
    Ex *lo = mk(E_MAX, T_INT), *hi = mk(E_MIN, T_INT);
    unsigned sp = k.pArray;
    k.pArray = 0;
    lo->a.push_back(leaf(n, T_INT, own, lk));
    k.pArray = sp;
    lo->a.push_back(cst(V::num(T_INT, 0)));
    hi->a.push_back(lo);
    hi->a.push_back(cst(V::num(T_INT, size - 1)));
    return hi;
  }
  Ex *arrLookup(int t)
  {
    Ex *e = mk(choose(2) ? E_LCHG : E_LNOW, t);
    for (auto &s : STATES) if (s.t == t) e->state = s.name;
    return e;
  }
  Ex *elem(Nd *n, int t, bool own, bool lk)
  {
    VarD *v = arrVar(n, own, t, false);
    Ex *e = mk(E_ELEM, t);
    if (v && !(lk && chance(1, 5))) {
      e->a.push_back(varEx(v));
      e->neg = choose(2);
      e->a.push_back(index(n, v->size, own, lk));
    }
    else if (lk) {
      e->a.push_back(arrLookup(T_ARR + t));
      e->a.push_back(index(n, ARR_STATE, own, lk));
    }
    else return cst(rv(t));
    return e;
  }
  // an array value no longer than max (0: any)
  Ex *arrEx(Nd *n, int t, bool own, bool lk, unsigned max)
  {
    unsigned w = choose(lk ? 6 : 4);
    if (w >= 4 && (!max || max >= ARR_STATE)) return arrLookup(t);
    if (w) {
      vector<VarD *> vs, fits;
      visible(n, own, t, false, vs);
      for (VarD *v : vs) if (!max || (v->size && v->size <= max)) fits.push_back(v);
      if (!fits.empty()) return varEx(fits[choose(fits.size())]);
    }
    return cst(rvArr(t, 1 + choose(max ? max : 3), t != T_ARR + T_STR));
  }
  Ex *arrBool(Nd *n, bool own, bool lk)
  {
    int t = T_ARR + 1 + choose(4);
    VarD *v = arrVar(n, own, eltOf(t), false);
    Ex *ar = v && choose(4) ? varEx(v) : arrEx(n, t, own, lk, 0), *e;
    switch (choose(6)) {
    case 0: case 1: e = mk(choose(2) ? E_EQA : E_NEA, T_BOOL); e->a.push_back(ar); e->a.push_back(arrEx(n, t, own, lk, 0)); return e;
    case 2: e = mk(E_ALLK, T_BOOL); e->a.push_back(ar); return e;
    case 3: e = mk(E_ANYK, T_BOOL); e->a.push_back(ar); return e;
    case 4:
      e = mk(E_ISKNOWN, T_BOOL);
      e->a.push_back(choose(2) ? ar : elem(n, eltOf(t), own, lk));
      return e;
    default: {
      Ex *sz = mk(choose(2) ? E_ASIZE : E_AMAX, T_INT);
      sz->a.push_back(ar);
      return cmp(sz, T_INT, n, own, lk);
    }
    }
  }
  Nd *pickNode(Nd *n, string &dir)
  {
    vector<std::pair<Nd *, string>> c;
    if (n->parent)
      for (Nd *s : n->parent->kids) if (s != n) { c.push_back({s, "id"}); c.push_back({s, "id"}); c.push_back({s, "sibling"}); }
    for (Nd *s : n->kids) c.push_back({s, n->type == N_LIB ? "" : "child"});
    c.push_back({n, "self"});
    if (n->parent) c.push_back({n->parent, "parent"});
    for (Nd *p = n->parent; p && p->parent; p = p->parent)
      for (Nd *s : p->parent->kids) c.push_back({s, "id"});
    vector<std::pair<Nd *, string>> d;
    for (auto &x : c) if (!x.second.empty()) d.push_back(x);
    auto &r = d[choose(d.size())];
    dir = r.second;
    return r.first;
  }
  Ex *nodeEx(Nd *n)
  {
    string dir;
    Nd *r = pickNode(n, dir);
    Ex *e;
    switch (choose(8)) {
    case 0: case 1: case 2: case 3: {
      static const int f[] = {NF_FINISHED, NF_FINISHED, NF_SUCC, NF_FAILED, NF_SKIPPED, NF_WAITING, NF_EXECUTING, NF_INACTIVE, NF_ITER, NF_POSTFAILED, NF_NOCHILDFAILED};
      e = mk(E_NFUN, T_BOOL);
      e->val = f[choose(r->isList() ? 11 : 10)];
      break;
    }
    case 4: e = mk(E_NSTATE, T_BOOL); e->val = choose(7); e->neg = choose(2); break;
    case 5: e = mk(E_NOUT, T_BOOL); e->val = 1 + choose(4); e->neg = choose(2); break;
    case 6: e = mk(E_NFAIL, T_BOOL); e->val = 1 + choose(6); e->neg = choose(2); break;
    default:
      if (r->type == N_CMD) { e = mk(E_NHANDLE, T_BOOL); e->val = 1 + choose(6); e->neg = chance(1, 3); }
      else { e = mk(E_NSTATE, T_BOOL); e->val = choose(7); e->neg = choose(2); }
    }
    e->ref = r;
    e->dir = dir;
    return e;
  }
  Ex *lookup(Nd *n, int t, bool own, bool allowChange, bool direct = false)
  {
    Ex *e = mk(allowChange && choose(2) ? E_LCHG : E_LNOW, t);
    if (t == T_INT && pct(k.pParam)) {
      e->state = "p";
      Ex *arg = choose(4) ? leaf(n, T_INT, own, false) : cst(rv(T_INT));
      e->a.push_back(arg);
    }
    else {
      vector<const char *> c;
      for (auto &s : STATES) if (s.t == t) c.push_back(s.name);
      e->state = c[choose(c.size())];
      if (t == T_INT && k.pSafe && k.pDyn && direct && pct(k.pSafe))
        if (VarD *v = safeOf(n, 6)) { e->name = varEx(v); e->op = E_LNOW; }
    }
    if (e->op == E_LCHG && (t == T_INT || t == T_REAL) && pct(k.pTol)) {
      int tt = choose(4) ? t : t == T_INT ? T_REAL : T_INT;
      if (chance(1, 3)) {
        vector<VarD *> vs;
        visible(n, own, tt, false, vs);
        if (!vs.empty()) { e->tol = mk(E_VAR, tt); e->tol->var = vs[choose(vs.size())]; }
      }
      if (!e->tol) e->tol = cst(V::num(tt, tt == T_INT ? 1 + choose(3) : (1 + choose(t == T_INT ? 13 : 6)) / 4.0));
    }
    return e;
  }
  Ex *leaf(Nd *n, int t, bool own, bool lk)
  {
    if (k.pArray && chance(k.pArray, 300)) return elem(n, t, own, lk && t != T_INT);
    if (lk && pct(k.pLookup)) return lookup(n, t, own, true);
    vector<VarD *> vs;
    visible(n, own, t, false, vs);
    if (!vs.empty() && choose(5)) { Ex *e = mk(E_VAR, t); e->var = vs[choose(vs.size())]; return e; }
    return cst(rv(t));
  }
  Ex *num(Nd *n, int t, bool own, bool lk, int d)
  {
    if (d <= 0 || choose(3)) return leaf(n, t, own, lk);
    static const Op ops[] = {E_ADD, E_SUB, E_MAX, E_MIN, E_ABS, E_MUL, E_DIV, E_MOD, E_SQRT, E_CEIL, E_FLOOR, E_ROUND, E_TRUNC};
    if (t == T_INT && chance(1, 8)) {
      bool r = choose(2);
      Ex *e = mk(r ? E_R2I : E_STRLEN, T_INT);
      if (r && choose(2)) { Ex *x = mk(ops[9 + choose(4)], T_REAL); x->a.push_back(num(n, T_REAL, own, lk, d - 1)); e->a.push_back(x); }
      else e->a.push_back(r ? num(n, T_REAL, own, lk, d - 1) : leaf(n, T_STR, own, lk));
      return e;
    }
    Op op = ops[choose(t == T_INT ? 8 : 13)];
    Ex *e = mk(op, t);
    e->a.push_back(op == E_DIV && t == T_INT && chance(1, 6) ? cst(V::num(T_INT, -2147483648.0)) : num(n, t, own, lk, d - 1));
    unsigned more = op == E_ABS || op >= E_SQRT ? 0 : op == E_DIV || op == E_MOD || op == E_MUL || choose(4) ? 1 : choose(2) ? 0 : 2;
    while (more--) e->a.push_back(num(n, t == T_REAL && chance(1, 4) ? T_INT : t, own, lk, d - 1));
    if (e->a[0]->op == E_CONST && e->a[0]->c.d < -100) {   // keep it away from other operators
      Ex *lo = mk(E_MAX, T_INT), *hi = mk(E_MIN, T_INT);
      lo->a.push_back(e);
      lo->a.push_back(cst(V::num(T_INT, -40)));
      hi->a.push_back(lo);
      hi->a.push_back(cst(V::num(T_INT, 40)));
      return hi;
    }
    return e;
  }
  bool inRhs = false;
  Ex *value(Nd *n, int t, bool own, bool lk, int d)
  {
    if (isArr(t)) return arrEx(n, t, own, lk, 0);
    if (t == T_BOOL) return boolean(n, own, lk, d, true);
    if (t == T_STR) {
      if (d > 0 && chance(1, 4)) {
        Ex *e = mk(E_CONCAT, T_STR);
        for (unsigned i = chance(1, 4) ? choose(8) : 2; i--;)   // (a string must not grow without bound)
          e->a.push_back(inRhs && !e->a.empty() ? cst(rv(t)) : leaf(n, t, own, lk));
        return e;
      }
      return leaf(n, t, own, lk);
    }
    return num(n, t, own, lk, d);
  }
  Ex *boolean(Nd *n, bool own, bool lk, int d, bool nodes)
  {
    if (d > 0 && chance(1, 3)) {
      static const Op ops[] = {E_AND, E_OR, E_NOT, E_XOR};
      Ex *e = mk(ops[choose(4)], T_BOOL);
      e->a.push_back(boolean(n, own, lk, d - 1, nodes));
      unsigned more = e->op == E_NOT ? 0 : choose(4) ? 1 : chance(1, 3) ? 0 : 2 + choose(chance(1, 3) ? 6 : 2);
      while (more--) e->a.push_back(boolean(n, own, lk, d - 1, nodes));
      return e;
    }
    if (k.pArray && chance(k.pArray, 300)) return choose(3) ? arrBool(n, own, lk) : cmp(elem(n, T_INT, own, lk), T_INT, n, own, lk);
    unsigned w = choose(k.pNodeRef + k.pLookup + k.pVar + k.pConst + k.pTime);
    if (w < k.pNodeRef) { if (nodes) return nodeEx(n); w = k.pNodeRef; }
    w -= k.pNodeRef;
    if (w < k.pLookup) {
      if (lk) {
        int t = 1 + choose(4);
        if (t == T_BOOL) return lookup(n, T_BOOL, own, true);
        Ex *l = lookup(n, t, own, true, true);
        return cmp(l, t, n, own, lk);
      }
      w = k.pLookup;
    }
    w -= k.pLookup;
    if (w >= k.pVar + k.pConst && nodes) {
      Ex *e = mk(chance(1, 2) ? E_GE : E_LT, T_BOOL), *tp = mk(E_TIMEPT, T_REAL);
      string dir;
      tp->ref = pickNode(n, dir);
      tp->dir = dir;
      tp->val = choose(7);
      tp->neg = choose(2);
      e->a.push_back(tp);
      e->a.push_back(cst(V::num(T_REAL, 1 + choose(40))));
      return e;
    }
    if (w < k.pVar) {
      int t = 1 + choose(4);
      if (k.deep && chance(k.deep, 100)) {
        Ex *v = value(n, t, own, lk, 1 + choose(3));
        if (chance(1, 6)) { Ex *e = mk(E_ISKNOWN, T_BOOL); e->a.push_back(v); return e; }
        return cmp(v, t, n, own, lk);
      }
      vector<VarD *> vs;
      visible(n, own, t, false, vs);
      if (!vs.empty()) {
        Ex *v = mk(E_VAR, t);
        v->var = vs[choose(vs.size())];
        if (t == T_BOOL && choose(4)) return v;
        if (chance(1, 8)) { Ex *e = mk(E_ISKNOWN, T_BOOL); e->a.push_back(v); return e; }
        return cmp(v, t, n, own, lk);
      }
      if (nodes) return nodeEx(n);
    }
    return cst(V::b(choose(4) != 0));
  }
  static bool untyped(Ex *e)
  {
    if (e->name || e->op == E_ELEM) return true;
    for (Ex *x : e->a) if (untyped(x)) return true;
    return false;
  }
  Ex *cmp(Ex *l, int t, Nd *n, bool own, bool lk)
  {
    static const Op num_[] = {E_GT, E_GE, E_LT, E_LE, E_EQN, E_NEN};
    Op op = t == T_BOOL ? (choose(2) ? E_EQB : E_NEB) : t == T_STR ? (choose(3) ? choose(2) ? E_EQS : E_NES : num_[choose(4)]) : num_[choose(6)];
    Ex *e = mk(op, T_BOOL);
    e->a.push_back(l);
    if (k.deep && chance(k.deep, 100)) e->a.push_back(value(n, t, own, lk, 1 + choose(2)));
    else {
      if ((t == T_INT || t == T_REAL) && !untyped(l) && chance(1, 5)) t = T_INT + T_REAL - t;   // an integer with a real
      e->a.push_back(choose(3) ? cst(rv(t)) : leaf(n, t, own, lk));
    }
    return e;
  }
  VarD *mkVar(Nd *n, int t)
  {
    VarD *v = new VarD;
    v->name = string(1, "?bnrs"[t]) + prefix + std::to_string(seq++);
    v->type = t;
    v->owner = n;
    v->hasInit = choose(4) != 0;
    if (v->hasInit) v->init = rv(t);
    return v;
  }
  VarD *mkArr(Nd *n)
  {
    VarD *v = mkVar(n, 1 + weighted({2, 5, 2, 2}));
    v->name = "a" + v->name;
    v->type += T_ARR;
    v->size = choose(6) ? 1 + choose(3) : 0;
    v->hasInit = choose(2);
    if (v->hasInit) v->init = rvArr(v->type, 1 + choose(v->size ? v->size : 3), v->type != T_ARR + T_STR);
    return v;
  }
  // structure first, then expressions: node references need the whole tree
  Nd *shape(Nd *parent, unsigned depth, bool root)
  {
    Nd *n = new Nd;
    n->parent = parent;
    n->plan = plan;
    ++count;
    n->id = prefix + std::to_string(seq++);
    unsigned wl = depth < k.maxDepth && count < k.maxNodes ? (root ? 30 : k.wList) : 0;
    n->type = weighted({k.wEmpty, k.wAssign, k.wCmd, k.wUpd, wl, libs.empty() || root ? 0 : k.wLib});
    if (n->type == N_LIST) {
      unsigned nv = choose(k.nVars + 1) + (root ? 1 : 0);
      for (unsigned i = 0; i < nv; ++i) n->vars.push_back(mkVar(n, 1 + weighted({3, 5, 2, 1})));
      if (k.pArray && (root || pct(k.pArray)))
        for (unsigned i = 1 + choose(2); i--;) n->vars.push_back(mkArr(n));
      if (k.pSafe && (root || chance(k.pSafe, 200)))
        for (unsigned i = 1 + choose(4); i--;) {
          int kind = 1 + choose(6);
          VarD *v = mkVar(n, safeType(kind));
          v->safe = kind;
          v->hasInit = true;
          v->init = rvSafe(v->type, kind);
          n->vars.push_back(v);
        }
      scopes(n);
      if (pct(k.pMutex) || (root && k.pMutex)) {
        unsigned nm = 1 + choose(2);
        for (unsigned i = 0; i < nm; ++i) { Mx *m = new Mx; m->name = "m" + prefix + std::to_string(seq++); m->owner = n; n->mxDecl.push_back(m); }
      }
      unsigned kids = 1 + choose(root ? 5 : 4);
      for (unsigned i = 0; i < kids && (i == 0 || count < k.maxNodes); ++i) n->kids.push_back(shape(n, depth + 1, false));
    }
    else if (n->type != N_LIB && chance(1, 6)) { n->vars.push_back(mkVar(n, 1 + choose(2))); scopes(n); }
    if (n->type == N_LIB) {
      LibDef *l = libs[choose(libs.size())];
      n->lib = l->name;
      if (chance(1, 4)) { for (unsigned i = 1 + choose(2); i--;) n->vars.push_back(mkVar(n, 1 + choose(3))); scopes(n); }
      if (!n->vars.empty() && !l->params.empty() && chance(1, 2)) {
        // a variable of the call itself which is named like a parameter
        VarD *p = l->params[choose(l->params.size())];
        n->vars.resize(1);
        n->vars[0]->name = p->name;
        if (!isArr(p->type)) { n->vars[0]->type = p->type; n->vars[0]->init = rv(p->type); }
      }
    }
    return n;
  }
  void mutexes(Nd *n, vector<Mx *> const &scope, bool held)
  {
    vector<Mx *> s = scope;
    for (Mx *m : n->mxDecl) s.push_back(m);
    // a mutex already used by an ancestor may not be used again
    if (!scope.empty() && pct(k.pMutex)) {
      unsigned i = choose(scope.size());
      n->uses.push_back(scope[i]);
      if (scope.size() > 1 && chance(1, 3)) { unsigned j = choose(scope.size()); if (j != i) n->uses.push_back(scope[j]); }
      for (Mx *m : n->uses) s.erase(std::find(s.begin(), s.end(), m));
    }
    for (Nd *c : n->kids) mutexes(c, s, held);
  }
  void fill(Nd *n)
  {
    if (n->type == N_ASSIGN) {
      vector<VarD *> all;
      for (int t = T_BOOL; t <= T_STR; ++t) visible(n, true, t, true, all);
      VarD *sv = nullptr;
      if (k.pSafe && chance(k.pSafe, 250)) { vector<VarD *> c; for (int i = 1; i <= 6; ++i) if (VarD *v = safeOf(n, i)) c.push_back(v); if (!c.empty()) sv = c[choose(c.size())]; }
      VarD *av = !sv && k.pArray && chance(k.pArray, 120) ? arrVar(n, true, 0, true) : nullptr;
      if (sv) { n->dest = sv; n->rhs = cst(rvSafe(sv->type, sv->safe)); }
      else if (av && choose(3)) {
        n->dest = av;
        n->destIdx = index(n, av->size, true, true);
        int t = eltOf(av->type);
        inRhs = true;
        n->rhs = value(n, t, true, true, t == T_BOOL);
        inRhs = false;
      }
      else if (av) { n->dest = av; n->rhs = arrEx(n, av->type, true, true, av->size); }
      else if (all.empty()) n->type = N_EMPTY;
      else {
        n->dest = all[choose(all.size())];
        inRhs = true;
        n->rhs = value(n, n->dest->type, true, true, (n->dest->type == T_BOOL ? 2 : n->dest->type == T_STR ? 0 : 1) + (k.deep ? choose(3) : 0));
        inRhs = false;
        // counting helps plans make progress
        if (n->dest->type == T_INT && chance(1, 2)) {
          Ex *v = mk(E_VAR, T_INT);
          v->var = n->dest;
          Ex *a = mk(E_ADD, T_INT);
          a->a.push_back(v);
          a->a.push_back(cst(V::num(T_INT, 1)));
          n->rhs = a;
        }
        // keep numbers bounded however often the node repeats
        if ((n->rhs->t == T_INT || n->rhs->t == T_REAL) && (!n->rhs->a.empty() || (n->rhs->op == E_VAR && n->rhs->var->iface))) {
          Ex *lo = mk(E_MAX, n->rhs->t), *hi = mk(E_MIN, n->rhs->t);
          lo->a.push_back(n->rhs);
          lo->a.push_back(cst(V::num(n->rhs->t, -40)));
          hi->a.push_back(lo);
          hi->a.push_back(cst(V::num(n->rhs->t, 40)));
          n->rhs = hi;
        }
      }
    }
    for (int c = 0; c < NCOND; ++c) {
      unsigned p = k.pc[c];
      if (n->type == N_LIST && !n->parent) p /= 2;
      if (!pct(p)) continue;
      bool own = c == C_END || c == C_INV || c == C_POST;
      bool lk = true;
      unsigned sp = k.pParam;
      if ((c == C_PRE || c == C_POST) && !k.preLookupParams) { k.pParam = 0; k.pDyn = false; }
      n->cond[c] = boolean(n, own, lk, 2, true);
      k.pParam = sp;
      k.pDyn = true;
    }
    if (n->type == N_ASSIGN)
      if (pct(k.pPrio)) {
        n->hasPrio = true;
        n->prio = choose(4);
        if (chance(1, 16)) n->prio = choose(2) ? 100001 : 2147483646; // worse than none at all
      }
    if (n->type == N_CMD) {
      n->cmd = CMDNAMES[choose(4)];
      unsigned na = choose(3);
      if (na == 2 && chance(1, 8)) na += 1 + choose(4);
      if (k.pSafe) { n->cmdEx = safeEx(n, 4); if (n->cmdEx->op == E_CONST) n->cmd = n->cmdEx->c.s; }
      for (unsigned i = 0; i < na; ++i) n->args.push_back(value(n, k.pArray && chance(k.pArray, 200) ? T_ARR + 1 + choose(4) : 1 + choose(4), true, true, 1));
      if (k.pArray && chance(k.pArray, 150)) {
        n->dest = arrVar(n, false, 0, true);
        if (n->dest && choose(2)) n->destIdx = index(n, n->dest->size, false, false);
      }
      else if (choose(2)) {
        vector<VarD *> all;
        for (int t = T_BOOL; t <= T_STR; ++t) visible(n, false, t, true, all);
        if (!all.empty()) n->dest = all[choose(all.size())];
      }
      if (pct(k.pResource)) {
        std::set<string> used;
        unsigned nr = 1 + choose(2);
        for (unsigned i = 0; i < nr; ++i) {
          string nm = RESNAMES[choose(5)];
          if (!used.insert(nm).second) continue;
          Res r;
          r.name = nr == 1 && k.pSafe ? safeEx(n, 5) : cst(V::str(nm));
          r.prio = safeEx(n, 1);
          r.ub = choose(3) ? safeEx(n, 2) : nullptr;
          r.rel = chance(1, 3) ? safeEx(n, 3) : nullptr;
          n->res.push_back(r);
        }
      }
    }
    else if (n->type == N_UPDATE) {
      unsigned np = 1 + choose(3);
      for (unsigned i = 0; i < np; ++i)
        n->pairs.push_back({"k" + std::to_string(i), value(n, k.pArray && chance(k.pArray, 200) ? T_ARR + 1 + choose(4) : 1 + choose(4), true, true, 1)});
    }
    else if (n->type == N_LIB) {
      LibDef *l = nullptr;
      for (LibDef *d : libs) if (d->name == n->lib) l = d;
      for (VarD *p : l->params) {
        if (p->hasInit && chance(1, 2)) continue;      // the parameter's default
        Ex *e = nullptr;
        if (p->iface == 2) {
          vector<VarD *> vs;
          visible(n, true, p->type, true, vs);
          if (isArr(p->type)) { vector<VarD *> f; for (VarD *v : vs) if (v->size == p->size) f.push_back(v); vs = f; }
          if (vs.empty()) { n->type = N_EMPTY; n->aliases.clear(); n->lib.clear(); break; }
          e = mk(E_VAR, p->type);
          e->var = vs[choose(vs.size())];
        }
        else if (isArr(p->type)) {
          vector<VarD *> vs;
          visible(n, false, p->type, false, vs);
          for (VarD *v : vs) if (v->size == p->size) { e = varEx(v); break; }
          if (!e) e = cst(rvArr(p->type, p->size, p->type != T_ARR + T_STR));
        }
        else { inRhs = true; e = value(n, p->type, true, false, 1); inRhs = false; }
        n->aliases.push_back({p, e});
      }
    }
    for (Nd *c : n->kids) fill(c);
  }
  Nd *root(string const &pfx, int planNo)
  {
    prefix = pfx;
    plan = planNo;
    count = 0;
    Nd *r = shape(nullptr, 0, true);
    if (k.pMutex) mutexes(r, globalMx, false);
    fill(r);
    return r;
  }
  LibDef *library(string const &name)
  {
    LibDef *d = new LibDef;
    d->name = name;
    prefix = name + "x";
    count = 0;
    Knobs save = k;
    k.maxNodes = 1 + choose(5);
    k.maxDepth = 2;
    k.wLib = 0;
    unsigned np = choose(4);
    Nd *r = shape(nullptr, 0, true);
    r->id = name;
    for (unsigned i = 0; i < np; ++i) {
      VarD *v = k.pArray && chance(1, 4) ? mkArr(r) : mkVar(r, 1 + choose(3));
      if (isArr(v->type) && !v->size) v->size = 2;
      if (isArr(v->type) && v->hasInit) v->init = rvArr(v->type, v->size, v->type != T_ARR + T_STR);
      v->iface = 1 + choose(2);
      r->params.push_back(v);
    }
    d->params = r->params;
    if (k.pMutex) mutexes(r, vector<Mx *>(), false);
    fill(r);
    k = save;
    d->root = r;
    return d;
  }
};

// ---- a library call instantiates a private copy of the library's node tree
struct Cloner {
  std::map<VarD *, VarD *> vm;
  std::map<Nd *, Nd *> nm;
  std::map<Mx *, Mx *> mm;
  Nd *shape(Nd *s, Nd *parent)
  {
    Nd *n = new Nd(*s);
    nm[s] = n;
    n->parent = parent;
    n->vars.clear(); n->params.clear(); n->mxDecl.clear(); n->uses.clear(); n->kids.clear();
    for (VarD *v : s->vars) { VarD *c = new VarD(*v); c->owner = n; vm[v] = c; n->vars.push_back(c); }
    for (VarD *v : s->params) { VarD *c = new VarD(*v); c->owner = n; vm[v] = c; if (c->aliasVar) { auto it = vm.find(c->aliasVar); if (it != vm.end()) c->aliasVar = it->second; } n->params.push_back(c); }
    for (Mx *m : s->mxDecl) { Mx *c = new Mx(*m); c->owner = n; mm[m] = c; n->mxDecl.push_back(c); }
    for (Mx *m : s->uses) n->uses.push_back(mm[m]);
    for (Nd *k : s->kids) n->kids.push_back(shape(k, n));
    return n;
  }
  Ex *ex(Ex *s)
  {
    if (!s) return nullptr;
    Ex *e = new Ex(*s);
    if (e->var) { auto it = vm.find(e->var); if (it != vm.end()) e->var = it->second; }
    if (e->ref) { auto it = nm.find(e->ref); if (it != nm.end()) e->ref = it->second; }
    for (Ex *&a : e->a) a = ex(a);
    e->tol = ex(e->tol);
    e->name = ex(e->name);
    return e;
  }
  void exprs(Nd *n)
  {
    for (Ex *&c : n->cond) c = ex(c);
    n->rhs = ex(n->rhs);
    n->destIdx = ex(n->destIdx);
    n->cmdEx = ex(n->cmdEx);
    for (Res &r : n->res) { r.name = ex(r.name); r.prio = ex(r.prio); r.ub = ex(r.ub); r.rel = ex(r.rel); }
    if (n->dest) { auto it = vm.find(n->dest); if (it != vm.end()) n->dest = it->second; }
    for (Ex *&a : n->args) a = ex(a);
    for (auto &p : n->pairs) p.second = ex(p.second);
    for (auto &a : n->aliases) a.second = ex(a.second);
    for (Nd *k : n->kids) exprs(k);
  }
};
inline void instantiate(Nd *n, vector<LibDef *> const &libs, int plan)
{
  n->plan = plan;
  if (n->type == N_LIB) {
    LibDef *l = nullptr;
    for (LibDef *d : libs) if (d->name == n->lib) l = d;
    Cloner c;
    Nd *r = c.shape(l->root, n);
    c.exprs(r);
    for (auto &a : n->aliases) {
      VarD *v = c.vm[a.first];
      if (v->iface == 2 || a.second->op == E_VAR) v->aliasVar = a.second->var;
      else v->aliasEx = a.second;
    }
    // parameters the call does not mention have the library's initial value
    for (VarD *v : vector<VarD *>(r->params)) if (!v->aliasVar && !v->aliasEx) {
      if (v->iface == 1) { v->aliasEx = new Ex; v->aliasEx->op = E_CONST; v->aliasEx->t = v->type; v->aliasEx->c = v->init; }
      else { r->params.erase(std::find(r->params.begin(), r->params.end(), v)); r->vars.push_back(v); }
    }
    n->kids.push_back(r);
  }
  for (Nd *k : n->kids) instantiate(k, libs, plan);
}
} // namespace pm
#endif
