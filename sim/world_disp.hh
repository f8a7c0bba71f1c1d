// Part of world_app.cc: who is asked. Random adapters register handlers of every
// kind for commands, lookups and updates; each request of a plan must reach the one
// configured for it, once, with what the plan said, and what the handler answers, or
// fails to answer, must come back as the interface promises.
struct DH {                      // a command handler
  int id;
  bool exec, abrt;               // does it execute / abort by itself?
};
struct Dp {
  vector<DH> cmdH;
  std::map<string, int> cmdOf, lookOf;
  int cmdDef = -1, lookDef = -1, upd = -1;       // -1: built in
  std::set<int> thFns;                           // lookup handlers with threshold functions
  int nextId = 0;
  struct Call {
    char kind;                   // C command, A abort, L lookup, T threshold, U update
    string name, id, var;
    vector<P::Value> args;
    int type = 0, beh = 0, par = 0;
    P::Value ret, got;
    bool hasRet = false, assigned = false, waiting = false, executing = false, finished = false, posted = false, gone = false, asked0 = false;
    P::CommandHandleValue ack = P::COMMAND_SUCCESS;
    unsigned executed = 0, aborted = 0, th = 0, clr = 0, plan = 0;
    int lastTh = 0;
    std::map<string, P::Value> pairs;
    P::NodeOutcome out = P::NO_OUTCOME;
    P::FailureType fail = P::NO_FAILURE;
  };
  std::deque<Call> calls;
  std::deque<std::function<void()>> jobs;
  bool stop = false;
  unsigned workers = 0, plans = 0, plansDone = 0;
  // adapters: constructed, initialised, started, stopped, destroyed
  struct Ad { unsigned init = 0, start = 0, stop = 0, dead = 0; bool failInit = false, failStart = false; };
  std::map<string, vector<std::pair<uint64_t, P::Value>>> told;   // what each state was told to be, in which step
  vector<Ad> ad, li;           // adapters and listeners
  unsigned initOrder = 0, startOrder = 0;
};
Dp *DP;
typedef Dp::Call DC;
string lit(P::Value const &v, int type)
{
  std::ostringstream s;
  static const char *tn[] = {"Boolean", "Integer", "Real", "String"};
  if (type == 4) {
    P::IntegerArray const *a = nullptr;
    v.getValuePointer(a);
    s << "<ArrayValue Type=\"Integer\">";
    for (size_t i = 0; i < a->size(); ++i) { P::Integer x = 0; a->getElement(i, x); s << iv(x); }
    s << "</ArrayValue>";
  }
  else if (type == 0) { bool b = false; v.getValue(b); s << "<BooleanValue>" << (b ? "true" : "false") << "</BooleanValue>"; }
  else if (type == 2) { P::Real r = 0; v.getValue(r); char b[60]; snprintf(b, sizeof b, "%.2f", r); s << "<RealValue>" << b << "</RealValue>"; }
  else s << "<" << tn[type] << "Value>" << v << "</" << tn[type] << "Value>";
  return s.str();
}
P::Value randomValue(int type)
{
  switch (type) {
  case 0: return P::Value((bool) choose(2));
  case 1: return P::Value((P::Integer) choose(2000) - 1000);
  case 2: return P::Value(((int) choose(2000) - 1000) * 0.25);
  case 3: return P::Value("s" + std::to_string(choose(1000)));
  default: {
    vector<P::Integer> v;
    for (unsigned i = 1 + choose(4); i--;) v.push_back((int) choose(100) - 50);
    return P::Value(P::IntegerArray(v));
  }
  }
}
DC *dcOf(P::Command *c, const char *what)
{
  vector<P::Value> const &a = c->getArgValues();
  int n = a.empty() ? -1 : intOf(a[0]);
  if (n < 0 || n >= (int) DP->calls.size()) violation("dispatch-invented", string(what) + " of a command nobody sent: " + c->getName());
  DC &d = DP->calls[n];
  if (c->getName() != d.name) violation("dispatch-name", "command " + d.name + " arrived as " + c->getName());
  if (a != d.args) {
    std::ostringstream s;
    s << what << " of command " << n << " with other arguments:";
    for (auto &v : a) s << ' ' << v;
    s << " instead of";
    for (auto &v : d.args) s << ' ' << v;
    violation("dispatch-args", s.str());
  }
  return &d;
}
int wantCmd(string const &n) { auto i = DP->cmdOf.find(n); return i == DP->cmdOf.end() ? DP->cmdDef : i->second; }
int wantLook(string const &n) { auto i = DP->lookOf.find(n); return i == DP->lookOf.end() ? DP->lookDef : i->second; }
void checkHandler(const char *what, string const &name, int got, int want)
{
  if (got != want) violation("dispatch-handler", string(what) + " " + name + " went to handler " + std::to_string(got) + " instead of " + (want < 0 ? string("none") : std::to_string(want)));
  nontrivial();
}
void later(std::function<void()> f) { NoPreempt np; DP->jobs.push_back(std::move(f)); }
void dispatchWorker(int)
{
  ++DP->workers;
  for (;;) {
    waitUntil("work", [] { return DP->stop || !DP->jobs.empty(); });
    if (DP->jobs.empty()) break;
    size_t i = choose(DP->jobs.size());
    std::function<void()> f = DP->jobs[i];
    DP->jobs.erase(DP->jobs.begin() + i);
    if (chance(1, 2)) sleepFor((nanos) (1 + choose(100)) * MS);
    f();
  }
  --DP->workers;
}
void reply(DC *d, P::Command *c, P::AdapterExecInterface *f, bool slow)
{
  if (slow && choose(2)) {
    f->handleCommandAck(c, choose(2) ? P::COMMAND_SENT_TO_SYSTEM : P::COMMAND_ACCEPTED);
    if (choose(2)) { f->notifyOfExternalEvent(); sleepFor((nanos) choose(30) * MS); }
  }
  // A failure ends the node whatever its end condition says, and so does success when no value is to come.
  bool ends = d->ack == P::COMMAND_FAILED || d->ack == P::COMMAND_DENIED || d->ack == P::COMMAND_INTERFACE_ERROR || !d->ret.isKnown();
  bool first = d->hasRet && (ends || choose(2));
  if (first) {
    if (choose(2)) f->handleCommandReturn(c, randomValue(d->type));      // the last one counts
    if (choose(2)) f->handleCommandReturn(c, d->ret); else f->handleCommandReturn(c, P::Value(d->ret));
    if (slow && choose(2)) { f->notifyOfExternalEvent(); sleepFor((nanos) choose(30) * MS); }
  }
  // The node may end with the last of them, and the plan may then be deleted
  // at the next quiet moment: nothing may be said later, so tell the exec at the end only.
  { std::ostringstream os; os << d->ret; event("reply to %s: %s%s%s", d->id.c_str(), P::commandHandleValueName(d->ack).c_str(), d->hasRet ? first ? " after " : ", " : "", d->hasRet ? os.str().c_str() : ""); }
  if (d->ack == P::COMMAND_INTERFACE_ERROR && choose(2)) { count("fault.wrong_handle"); f->handleCommandAck(c, choose(2) ? P::NO_COMMAND_HANDLE : P::COMMAND_HANDLE_MAX); }
  else f->handleCommandAck(c, d->ack);
  if (d->hasRet && !first) f->handleCommandReturn(c, d->ret);
  f->notifyOfExternalEvent();
}
void dExec(int id, P::Command *c, P::AdapterExecInterface *f)
{
  DC *d = dcOf(c, "execution");
  event("handler %d executes %s of %s", id, d->name.c_str(), d->id.c_str());
  checkHandler("command", d->name, id, wantCmd(d->name));
  if (++d->executed > 1) violation("dispatch-twice", "command " + d->id + " was executed twice");
  if (c->isReturnExpected() != d->hasRet) violation("dispatch-return", "isReturnExpected() is wrong for " + d->id);
  switch (d->beh) {
  case 0: reply(d, c, f, false); break;
  case 1: later([d, c, f] { reply(d, c, f, true); }); break;
  case 2: count("fault.handler_throws"); throw P::InterfaceError("simulated", "simulated", __FILE__, __LINE__);
  default: break;
  }
}
void dAbort(int id, P::Command *c, P::AdapterExecInterface *f)
{
  DC *d = dcOf(c, "abort");
  event("handler %d aborts %s of %s", id, d->name.c_str(), d->id.c_str());
  checkHandler("abort of command", d->name, id, wantCmd(d->name));
  if (d->kind != 'A') violation("dispatch-abort", "command " + d->id + " was aborted although its node ended by itself");
  if (++d->aborted > 1) violation("dispatch-twice", "command " + d->id + " was aborted twice");
  count("probe.abort");
  if (d->beh == 10) { f->handleCommandAbortAck(c, true); f->notifyOfExternalEvent(); }
  else if (d->beh == 11) later([c, f] { f->handleCommandAbortAck(c, true); f->notifyOfExternalEvent(); });
  else {
    count("fault.abort_refused");
    later([c, f] { sleepFor(20 * MS); f->handleCommandAbortAck(c, true); f->notifyOfExternalEvent(); });
    if (d->beh == 12) { f->handleCommandAbortAck(c, false); f->notifyOfExternalEvent(); }
    else throw P::InterfaceError("simulated", "simulated", __FILE__, __LINE__);
  }
}
struct DCmd final : P::CommandHandler {          // handler objects, with or without functions of their own
  int id; bool ex, ab;
  DCmd(int i, bool e, bool a) : id(i), ex(e), ab(a) {}
  void executeCommand(P::Command *c, P::AdapterExecInterface *f) override { if (ex) dExec(id, c, f); else P::CommandHandler::executeCommand(c, f); }
  void abortCommand(P::Command *c, P::AdapterExecInterface *f) override { if (ab) dAbort(id, c, f); else P::CommandHandler::abortCommand(c, f); }
};
// what a lookup handler answers, a function of who it is and of the state
unsigned lookKind(P::State const &s) { return s.parameterCount() ? (unsigned) intOf(s.parameter(0)) % 5 : 0; }
P::Value lookValue(int id, string const &name, int par)
{
  switch (name[1]) {
  case '0': return P::Value((P::Integer) (id * 1000 + par));
  case '1': return P::Value(id * 1000 + par * 0.25);
  case '2': return P::Value((bool) ((id + par) & 1));
  default: return P::Value("h" + std::to_string(id) + "p" + std::to_string(par));
  }
}
void dLook(int id, P::State const &s, P::LookupReceiver *r)
{
  checkHandler("lookup", s.name(), id, wantLook(s.name()));
  event("handler %d looks up %s", id, s.name().c_str());
  if (s.parameterCount() != 1) violation("dispatch-args", "lookup " + s.name() + " arrived with " + std::to_string(s.parameterCount()) + " parameters");
  int par = intOf(s.parameter(0));
  if (s.name()[0] == 'l') {
    switch (lookKind(s)) {
    case 0:
      if (choose(2)) { P::Value v = lookValue(id, s.name(), par); DP->told[s.name() + std::to_string(par)].emplace_back(W->steps, v); r->update(v); return; }
      DP->told[s.name() + std::to_string(par)].emplace_back(W->steps, P::Value());
      count("fault.lookup_throws");
      throw P::InterfaceError("simulated", "simulated", __FILE__, __LINE__);
    case 1: if (choose(2)) r->setUnknown(); else count("fault.lookup_no_answer"); return;
    case 2: {
      P::Value v = lookValue(id, s.name(), par);
      switch (s.name()[1]) {
      case '0': { P::Integer x; v.getValue(x); r->update(x); return; }
      case '1': { P::Real x; v.getValue(x); r->update(x); return; }
      case '2': { bool x; v.getValue(x); r->update(x); return; }
      default: { string x; v.getValue(x); if (choose(2)) r->update(x); else r->update(x.c_str()); return; }
      }
    }
    default: r->update(lookValue(id, s.name(), par)); return;
    }
  }
  if (par < 0 || par >= (int) DP->calls.size()) violation("dispatch-args", "lookup of a state nobody named");
  DC &d = DP->calls[par];
  if (!d.posted) d.asked0 = true;
  if (s.name() == "go") r->update((bool) d.posted);
  else if (s.name() == "t0") r->update((P::Integer) (d.posted ? 12 : 0));
  else r->update((P::Real) (d.posted ? 12 : 0));
}
void dThresh(int id, P::State const &s, double hi, double lo, bool real)
{
  if (real != (s.name() == "t1")) violation("dispatch-thresholds", "thresholds of " + s.name() + (real ? " came as reals" : " came as integers"));
  checkHandler("thresholds of", s.name(), id, wantLook(s.name()));
  DC &d = DP->calls.at(intOf(s.parameter(0)));
  event("handler %d thresholds %s %g %g", id, s.name().c_str(), hi, lo);
  ++d.th;
  d.lastTh = 1;
  double v = d.posted && hi > 5 ? 12 : 0;
  if (!(hi > v && lo < v)) violation("dispatch-thresholds", "thresholds " + std::to_string(lo) + " and " + std::to_string(hi) + " do not lie around the value " + std::to_string(v));
  if (d.par == 3) { count("fault.thresholds_throw"); throw P::InterfaceError("simulated", "simulated", __FILE__, __LINE__); }
}
void dClear(int id, P::State const &s)
{
  checkHandler("clearThresholds of", s.name(), id, wantLook(s.name()));
  DC &d = DP->calls.at(intOf(s.parameter(0)));
  event("handler %d clears thresholds %s", id, s.name().c_str());
  ++d.clr;
  d.lastTh = 0;
  if (d.par == 2) { count("fault.thresholds_throw"); throw P::InterfaceError("simulated", "simulated", __FILE__, __LINE__); }
}
struct DLook final : P::LookupHandler {
  int id; bool th;
  DLook(int i, bool t) : id(i), th(t) {}
  void lookupNow(P::State const &s, P::LookupReceiver *r) override { dLook(id, s, r); }
  void setThresholds(P::State const &s, P::Real hi, P::Real lo) override { if (th) dThresh(id, s, hi, lo, true); else P::LookupHandler::setThresholds(s, hi, lo); }
  void setThresholds(P::State const &s, P::Integer hi, P::Integer lo) override { if (th) dThresh(id, s, hi, lo, false); else P::LookupHandler::setThresholds(s, hi, lo); }
  void clearThresholds(P::State const &s) override { if (th) dClear(id, s); else P::LookupHandler::clearThresholds(s); }
};
void dUpdate(int id, P::Update *u, P::AdapterExecInterface *f)
{
  checkHandler("update of", u->getNodeId(), id, DP->upd);
  DC *d = nullptr;
  string const nid = u->getNodeId(); // (a library call: other threads may run here)
  for (DC &x : DP->calls) if (x.id == nid) d = &x;
  if (!d) violation("dispatch-invented", "an update of a node which sent none");
  event("handler %d gets the update of %s", id, d->id.c_str());
  if (++d->executed > 1) violation("dispatch-twice", "the update of " + d->id + " was sent twice");
  std::map<string, P::Value> got;
  for (auto const &p : u->getPairs()) got[p.first] = p.second;
  if (got != d->pairs) violation("dispatch-args", "the update of " + d->id + " arrived with other pairs");
  if (d->beh == 0) { f->handleUpdateAck(u, true); f->notifyOfExternalEvent(); return; }
  bool no = d->beh == 2 || d->beh == 3;
  if (no) count("fault.update_refused");
  bool thrown = d->beh == 3;
  later([u, f, no, thrown] {
    if (thrown) sleepFor(20 * MS);
    if (no && !thrown) { f->handleUpdateAck(u, false); f->notifyOfExternalEvent(); sleepFor((nanos) choose(40) * MS); }
    f->handleUpdateAck(u, true);
    f->notifyOfExternalEvent();
  });
  if (thrown) throw P::InterfaceError("simulated", "simulated", __FILE__, __LINE__);
}
struct DAdapter final : P::InterfaceAdapter {
  unsigned n;
  DAdapter(P::AdapterExecInterface &i, P::AdapterConf *c) : P::InterfaceAdapter(i, c) { n = getXml().attribute("N").as_uint(); W->intf = &i; }
  ~DAdapter() override { ++DP->ad[n].dead; }
  bool initialize(P::AdapterConfiguration *c) override
  {
    if (DP->ad[n].init++) violation("adapter-life", "an adapter was initialised twice");
    if (n != DP->initOrder++) violation("adapter-life", "the adapters were not initialised in the order of the configuration");
    if (DP->ad[n].failInit) return false;
    for (unsigned i = choose(5); i--;) {
      int id = DP->nextId++;
      unsigned how = choose(6);
      bool ex = true, ab = choose(2);
      vector<string> names(1, "c" + std::to_string(choose(5)));
      auto E = [id](P::Command *x, P::AdapterExecInterface *f) { dExec(id, x, f); };
      auto B = [id](P::Command *x, P::AdapterExecInterface *f) { dAbort(id, x, f); };
      bool dflt = false;
      switch (how) {
      case 0: if (ab) c->registerCommandHandlerFunction(names[0], E, B); else if (choose(2)) c->registerCommandHandlerFunction(names[0], E); else c->registerCommandHandlerFunction(names[0], E, nullptr); break;
      case 1: ex = choose(2); c->registerCommandHandler(std::make_shared<DCmd>(id, ex, ab), names[0]); break;
      case 2: while (names.size() < 3) names.push_back("c" + std::to_string(choose(5))); c->registerCommandHandler(std::make_shared<DCmd>(id, ex, ab), names); break;
      case 3: dflt = true; if (ab) c->setDefaultCommandHandlerFunction(E, B); else c->setDefaultCommandHandlerFunction(E); break;
      case 4: dflt = true; c->setDefaultCommandHandler(std::make_shared<DCmd>(id, ex, ab)); break;
      default: ab = true; c->registerCommandHandlerFunction(names[0], E, B);
      }
      DP->cmdH.resize(DP->nextId);
      DP->cmdH[id] = DH{id, ex, ab};
      if (dflt) DP->cmdDef = id; else for (string const &s : names) DP->cmdOf[s] = id;
      event("adapter %u: command handler %d for %s", n, id, dflt ? "all others" : names[0].c_str());
    }
    for (unsigned i = choose(5); i--;) {
      int id = DP->nextId++;
      static const char *ln[] = {"l0", "l1", "l2", "l3", "t0", "t1", "go"};
      vector<string> names(1, ln[choose(7)]);
      bool th = choose(2), dflt = false;
      auto L = [id](P::State const &s, P::LookupReceiver *r) { dLook(id, s, r); };
      auto TR = [id](P::State const &s, P::Real hi, P::Real lo) { dThresh(id, s, hi, lo, true); };
      auto TI = [id](P::State const &s, P::Integer hi, P::Integer lo) { dThresh(id, s, hi, lo, false); };
      auto C = [id](P::State const &s) { dClear(id, s); };
      switch (choose(5)) {
      case 0: if (th) c->registerLookupHandlerFunction(names[0], L, TR, TI, C); else c->registerLookupHandlerFunction(names[0], L); break;
      case 1: c->registerLookupHandler(std::make_shared<DLook>(id, th), names[0]); break;
      case 2: while (names.size() < 3) names.push_back(ln[choose(7)]); c->registerLookupHandler(std::make_shared<DLook>(id, th), names); break;
      case 3: dflt = true; if (th) c->setDefaultLookupHandler(L, TR, TI, C); else c->setDefaultLookupHandler(L); break;
      default: dflt = true; c->setDefaultLookupHandler(std::make_shared<DLook>(id, th));
      }
      if (th) DP->thFns.insert(id);
      if (dflt) DP->lookDef = id; else for (string const &s : names) DP->lookOf[s] = id;
      event("adapter %u: lookup handler %d for %s", n, id, dflt ? "all others" : names[0].c_str());
    }
    if (choose(3) == 0) {
      int id = DP->upd = DP->nextId++;
      c->registerPlannerUpdateHandler([id](P::Update *u, P::AdapterExecInterface *f) { dUpdate(id, u, f); });
    }
    DP->cmdH.resize(DP->nextId);
    return true;
  }
  bool start() override
  {
    if (DP->ad[n].start++) violation("adapter-life", "an adapter was started twice");
    if (n != DP->startOrder++) violation("adapter-life", "the adapters were not started in the order of the configuration");
    if (DP->initOrder != DP->ad.size()) violation("adapter-life", "an adapter was started before all were initialised");
    return !DP->ad[n].failStart;
  }
  void stop() override { ++DP->ad[n].stop; event("adapter %u stops", n); }
};
struct DListener final : P::ExecListener {
  unsigned n;
  DListener(pugi::xml_node const x) : P::ExecListener(x) { n = x.attribute("N").as_uint(); }
  ~DListener() override { ++DP->li[n].dead; }
  bool initialize() override { ++DP->li[n].init; return !DP->li[n].failInit; }
  bool start() override { ++DP->li[n].start; if (!DP->li[n].init) violation("adapter-life", "a listener was started before it was initialised"); return !DP->li[n].failStart; }
  void stop() override { ++DP->li[n].stop; }
};
// ---- plans
string dNode(int n)
{
  DC &d = DP->calls[n];
  static const char *tn[] = {"Boolean", "Integer", "Real", "String"};
  string cond, body, type, decls;
  string V = d.type < 4 ? string("<") + tn[d.type] + "Variable>" + d.var + "</" + tn[d.type] + "Variable>" : "";
  string look = "<Arguments>" + iv(n) + "</Arguments>";
  if (d.hasRet || d.kind == 'L') decls = string("<DeclareVariable><Name>") + d.var + "</Name><Type>" + tn[d.type] + "</Type></DeclareVariable>";
  if (d.kind == 'C' || d.kind == 'A') {
    type = "Command";
    string h = "<EQInternal><NodeCommandHandleVariable><NodeId>" + d.id + "</NodeId></NodeCommandHandleVariable><NodeCommandHandleValue>";
    string done = h + P::commandHandleValueName(d.ack) + "</NodeCommandHandleValue></EQInternal>";
    if (d.kind == 'A') cond = "<EndCondition><BooleanValue>false</BooleanValue></EndCondition><ExitCondition><LookupOnChange><Name><StringValue>go</StringValue></Name>" + look + "</LookupOnChange></ExitCondition>";
    else {
      bool ret = d.hasRet && d.ret.isKnown();
      cond = "<EndCondition>" + (ret ? "<AND>" + done + "<IsKnown>" + V + "</IsKnown></AND>" : done) + "</EndCondition>";
      string ok = d.type == 0 ? "EQBoolean" : d.type == 3 ? "EQString" : "EQNumeric";
      if (ret) cond += "<PostCondition><" + ok + ">" + V + lit(d.ret, d.type) + "</" + ok + "></PostCondition>";
      else if (d.hasRet) cond += "<PostCondition><NOT><IsKnown>" + V + "</IsKnown></NOT></PostCondition>";
    }
    body = "<Command>" + (d.hasRet ? V : string()) + "<Name><StringValue>" + d.name + "</StringValue></Name><Arguments>";
    for (auto &v : d.args) body += lit(v, v.valueType() == P::BOOLEAN_TYPE ? 0 : v.valueType() == P::INTEGER_TYPE ? 1 : v.valueType() == P::REAL_TYPE ? 2 : v.valueType() == P::STRING_TYPE ? 3 : 4);
    body += "</Arguments></Command>";
  }
  else if (d.kind == 'L') {
    type = "Assignment";
    string rhs = d.type == 0 ? "BooleanRHS" : d.type == 3 ? "StringRHS" : "NumericRHS";
    body = "<Assignment>" + V + "<" + rhs + "><LookupNow><Name><StringValue>" + d.name + "</StringValue></Name><Arguments>" + iv(d.par) + "</Arguments></LookupNow></" + rhs + "></Assignment>";
  }
  else if (d.kind == 'T') {
    type = "Empty";
    cond = "<StartCondition><GE><LookupOnChange><Name><StringValue>" + d.name + "</StringValue></Name><Tolerance>" + (d.name == "t0" ? iv(1 + d.par) : "<RealValue>" + std::to_string(1 + d.par) + ".5</RealValue>") + "</Tolerance>" + look
      + "</LookupOnChange>" + iv(10) + "</GE></StartCondition>";
  }
  else {
    type = "Update";
    body = "<Update>";
    for (auto &p : d.pairs) body += "<Pair><Name>" + p.first + "</Name>" + lit(p.second, atoi(p.first.c_str() + 1)) + "</Pair>";
    body += "</Update>";
  }
  return "<Node NodeType=\"" + type + "\"><NodeId>" + d.id + "</NodeId>" + (decls.empty() ? "" : "<VariableDeclarations>" + decls + "</VariableDeclarations>") + cond + (body.empty() ? "" : "<NodeBody>" + body + "</NodeBody>") + "</Node>";
}
int dCall(unsigned plan)
{
  int n = DP->calls.size();
  DP->calls.emplace_back();
  DC &d = DP->calls.back();
  d.plan = plan;
  d.kind = "CCCALLTU"[choose(8)];
  d.id = "K" + std::to_string(n);
  d.var = "v" + std::to_string(n);
  d.type = choose(4);
  if (d.kind == 'C' || d.kind == 'A') {
    d.name = "c" + std::to_string(choose(6));
    d.args.push_back(P::Value((P::Integer) n));
    for (unsigned i = choose(4); i--;) d.args.push_back(randomValue(choose(5)));
    int h = wantCmd(d.name);
    bool ex = h >= 0 && DP->cmdH[h].exec;
    d.hasRet = choose(2);
    if (d.kind == 'A') d.beh = 10 + choose(4);
    else {
      d.beh = choose(3);
      if (ex && d.beh == 2) { d.ack = P::COMMAND_INTERFACE_ERROR; d.hasRet = false; }
      if (ex && d.beh < 2) {
        static const P::CommandHandleValue a[] = {P::COMMAND_SUCCESS, P::COMMAND_FAILED, P::COMMAND_DENIED, P::COMMAND_RCVD_BY_SYSTEM, P::COMMAND_INTERFACE_ERROR};
        d.ack = a[choose(5)];
        if (d.hasRet) d.ret = chance(1, 8) ? P::Value() : randomValue(d.type);
      }
    }
    if (!ex) d.ret = P::Value();
  }
  else if (d.kind == 'L') { d.name = "l" + std::to_string(d.type == 0 ? 2 : d.type == 1 ? 0 : d.type == 2 ? 1 : 3); d.par = choose(25); }
  else if (d.kind == 'T') { d.name = choose(2) ? "t0" : "t1"; d.par = choose(4); d.type = 5; }
  else {
    d.beh = choose(4);
    for (int t = 0; t < 4; ++t) if (choose(2) || !t) d.pairs["p" + std::to_string(t)] = randomValue(t);
  }
  return n;
}
void dpTransition(P::NodeTransition const &t)
{
  string const &id = t.node->getNodeId();
  if (id[0] == 'R') { if (t.newState == P::FINISHED_STATE) ++DP->plansDone; return; }
  DC &d = DP->calls.at(atoi(id.c_str() + 1));
  if (t.newState == P::WAITING_STATE) d.waiting = true;
  if (t.newState == P::EXECUTING_STATE) d.executing = true;
  if (t.newState == P::FINISHED_STATE) { d.finished = true; d.out = t.node->getOutcome(); d.fail = t.node->getFailureType(); }
}
void dpAssign(string const &n, P::Value const &v)
{
  DC &d = DP->calls.at(atoi(n.c_str() + 1));
  std::ostringstream os;
  os << v;
  event("%s = %s", n.c_str(), os.str().c_str());
  d.got = v;
  d.assigned = true;
  if (d.kind == 'L') {
    // No answer is asked for again: there may be several in one step.
    auto &t = DP->told[d.name + std::to_string(d.par)];
    for (size_t i = t.size(); i--;) {
      if (i + 1 < t.size() && t[i].first < W->steps) break;
      d.ret = t[i].second;
      if (d.ret.isKnown() == v.isKnown()) break;
    }
  }
}
void dThread(int t)
{
  for (unsigned k = 1 + choose(3); k--;) {
    unsigned p = DP->plans++;
    vector<int> mine;
    string kids;
    { NoPreempt np;
      for (unsigned i = 1 + choose(6); i--;) mine.push_back(dCall(p));
      for (int n : mine) kids += dNode(n); }
    pugi::xml_document x;
    // Half of the plans declare the states they look up; without, the types are not known to the parser.
    string decl;
    if (choose(2)) {
      decl = "<GlobalDeclarations>";
      static const char *st[][2] = {{"l0", "Integer"}, {"l1", "Real"}, {"l2", "Boolean"}, {"l3", "String"}, {"t0", "Integer"}, {"t1", "Real"}, {"go", "Boolean"}};
      for (auto &s : st) decl += string("<StateDeclaration><Name>") + s[0] + "</Name><Return><Name>r</Name><Type>" + s[1] + "</Type></Return><Parameter><Name>q</Name><Type>Integer</Type></Parameter></StateDeclaration>";
      decl += "</GlobalDeclarations>";
    }
    if (x.load_string(("<PlexilPlan>" + decl + list("R" + std::to_string(p), "", "", kids) + "</PlexilPlan>").c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) inconclusive("harness: plan XML");
    for (int n : mine) event("%s", dNode(n).c_str());
    event("thread %d adds plan R%u", t, p);
    if (!W->app->addPlan(&x)) {
      try { P::parsePlan(x.document_element()); }
      catch (std::exception const &e) { violation("plan-rejected", string("addPlan refused a valid plan: ") + e.what()); }
      violation("plan-rejected", "addPlan refused a valid plan");
    }
    W->app->notifyExec();
    for (int n : mine) {
      DC &d = DP->calls[n];
      if (d.kind != 'A' && d.kind != 'T') continue;
      if (waitUntil("a node to get going", [&d] { return d.kind == 'A' ? d.executing : d.waiting; }, now() + 60 * SEC)) violation("no-progress", "node " + d.id + " never got going");
      if (choose(2)) sleepFor((nanos) choose(40) * MS);
      d.posted = true;
      event("post for %s", d.id.c_str());
      P::State s(d.kind == 'A' ? "go" : d.name, vector<P::Value>(1, P::Value((P::Integer) n)));
      P::Value v = d.kind == 'A' ? P::Value(true) : d.name == "t0" ? P::Value((P::Integer) 12) : P::Value(12.0);
      switch (choose(4)) {
      case 0: W->intf->handleValueChange(s, v); break;
      case 1: W->intf->handleValueChange(s, P::Value(v)); break;
      case 2: W->intf->handleValueChange(P::State(s), v); break;
      default: W->intf->handleValueChange(P::State(s), P::Value(v));
      }
      W->intf->notifyOfExternalEvent();
    }
    if (choose(3) == 0) sleepFor((nanos) choose(50) * MS);
  }
}
void dispatchWorld()
{
  H h;
  W = &h;
  Dp dp;
  DP = &dp;
  if (choose(3)) params.memPreempt = 0;
  if (chance(1, 4)) { params.stallMean = 400; params.stallMax = (1 + choose(6)) * 20 * MS; }
  s_lst.clear();
  h.app.reset(P::makeExecApplication());
  P::registerSimAdapter();
  dp.ad.resize(1 + choose(4));
  string cfg = "<Interfaces>";
  unsigned timeAt = choose(dp.ad.size() + 1);
  static const char *timeXml = "<Adapter AdapterType=\"Time\"><Timebase Type=\"Posix\"/></Adapter>";
  bool unknown = chance(1, 20), failI = false, failS = false;
  for (unsigned i = 0; i < dp.ad.size(); ++i) {
    if (i == timeAt) cfg += timeXml;
    cfg += "<Adapter AdapterType=\"SimD\" N=\"" + std::to_string(i) + "\"/>";
    if (chance(1, 40)) dp.ad[i].failInit = failI = true;
    if (chance(1, 25)) dp.ad[i].failStart = failS = true;
  }
  if (timeAt == dp.ad.size()) cfg += timeXml;
  dp.li.resize(choose(4));
  for (unsigned i = 0; i < dp.li.size(); ++i) {
    cfg += "<Listener ListenerType=\"SimDL\" N=\"" + std::to_string(i) + "\"/>";
    if (chance(1, 40)) dp.li[i].failInit = failI = true;
    if (chance(1, 25)) dp.li[i].failStart = failS = true;
  }
  if (unknown) cfg += "<Adapter AdapterType=\"NoSuchAdapter\"/>";
  cfg += "</Interfaces>";
  static pugi::xml_document doc;
  doc.load_string(cfg.c_str());
  bool r = h.app->initialize(doc.document_element());
  if (r != (!unknown && !failI)) violation("start-result", string("initialize() returned ") + (r ? "true" : "false"));
  if (r && choose(4) == 0 && !h.app->initialize(doc.document_element())) violation("start-result", "initialize() a second time returned false");
  if (r) {
    s_tap.hub = h.app->listenerHub();
    h.app->exec()->setExecListener(&s_tap);
    r = h.app->startInterfaces();
    if (r != !failS) violation("start-result", string("startInterfaces() returned ") + (r ? "true" : "false"));
    if (r && choose(4) == 0 && !h.app->startInterfaces()) violation("start-result", "startInterfaces() a second time returned false");
  }
  else if (h.app->startInterfaces()) violation("start-result", "startInterfaces() succeeded although initialize() had failed");
  if (r) {
    if (!h.app->run()) inconclusive("run");
    h.running = true;
    unsigned nw = 1 + choose(3), nt = 1 + choose(2);
    for (unsigned i = 0; i < nw; ++i) spawn("worker" + std::to_string(i), [i] { dispatchWorker(i); });
    for (unsigned t = 0; t < nt; ++t) user("user" + std::to_string(t), [t] { dThread(t); });
    expect("the end of the users", [&h] { return h.live == 0; }, 120 * SEC, "no-progress");
    h.app->notifyExec();
    expect("the end of all plans", [&dp] { return dp.plansDone == dp.plans; }, 120 * SEC, "no-progress");
    expect("the workers", [&dp] { return dp.jobs.empty(); }, 60 * SEC, "no-progress");
    waitIdle(now() + 5 * SEC);
    for (DC &d : dp.calls) {
      string who = string("call ") + d.kind + " " + d.name + " of node " + d.id;
      int h = d.kind == 'C' || d.kind == 'A' ? wantCmd(d.name) : d.kind == 'U' ? dp.upd : wantLook(d.name);
      bool ex = (d.kind == 'C' || d.kind == 'A') ? h >= 0 && dp.cmdH[h].exec : h >= 0, ab = h >= 0 && dp.cmdH[h].abrt;
      if (d.kind == 'C' || d.kind == 'A' || d.kind == 'U') {
        if (d.executed != (ex ? 1u : 0u)) violation("dispatch-lost", who + ": executed " + std::to_string(d.executed) + " times");
      }
      if (d.kind == 'A' && d.aborted != (ab ? 1u : 0u)) violation("dispatch-lost", who + ": aborted " + std::to_string(d.aborted) + " times");
      P::NodeOutcome o = d.kind == 'A' ? P::INTERRUPTED_OUTCOME : P::SUCCESS_OUTCOME;
      if (d.out != o) violation("dispatch-outcome", who + " ended with outcome " + P::outcomeName(d.out) + " (" + P::failureTypeName(d.fail) + ")");
      if (d.kind == 'L') {
        unsigned k = d.par % 5;
        P::Value want = h < 0 || k == 1 ? P::Value() : k == 0 ? d.ret : lookValue(h, d.name, d.par);
        if (!d.assigned || d.got.isKnown() != want.isKnown() || (want.isKnown() && d.got != want)) {
          std::ostringstream s;
          s << who << " (handler " << h << ") gave " << d.got << " instead of " << want;
          violation("dispatch-value", s.str());
        }
      }
      if (d.kind == 'T' && h >= 0 && dp.thFns.count(h)) {
        if (!d.posted || d.th + d.clr) count("probe.thresholds");
        if (d.asked0 && !d.th) violation("dispatch-thresholds", who + ": the thresholds were never set");
        if (d.th && d.lastTh) violation("dispatch-thresholds", who + ": the thresholds were never cleared");
      }
    }
  }
  h.stopping = true;
  h.app->stop();
  dp.stop = true;
  waitIdle(now() + SEC);
  for (auto *v : {&dp.ad, &dp.li}) for (auto &a : *v) {
    const char *what = v == &dp.ad ? "an adapter" : "a listener";
    bool started = a.start && !a.failStart;
    if (started && !a.stop) violation("adapter-life", string(what) + " which had been started was never stopped");
    if (a.stop > 1) violation("adapter-life", string(what) + " was stopped twice");
    if (a.start > 1 || a.init > 1) violation("adapter-life", string(what) + " was initialised or started twice");
    if (a.stop && !started) violation("adapter-life", string(what) + " was stopped without having been started");
    if (started) nontrivial();
  }
  h.app.reset();
  for (auto *v : {&dp.ad, &dp.li}) for (auto &a : *v) if (!unknown && a.dead != 1) violation("adapter-life", "an adapter or listener was not destroyed with the application");
  simtime((double) (now() - 1000 * SEC) / 1e9);
  cover(scheduleHash());
  finish();
}
