// Part of world_app.cc: plans that start, follow and end other plans (the Launcher adapter).
// Each StartPlan must run the library named, with the values given, once, under a name of its own; the lookups PlanState,
// PlanOutcome and PlanFailureType must tell what became of it, also to those who ask later; ExitPlan must end it.
struct Ln {
  struct Param { string name; int type; };
  struct Lib { string id; int body; vector<Param> params; };
  vector<Lib> libs;
  struct Start {
    int lib = 0, err = 0;        // err: which mistake the call contains
    int repeats = 0;             // own: runs until its postcondition, which fails this many times, holds
    unsigned asked = 0;
    bool own = false;            // not launched: the user adds the plan himself
    vector<P::Value> vals;       // per parameter; unknown: not passed
    bool onExec = false;          // ends it as soon as it is told that it executes
    bool exits = false, goes = false, quit = false, later = false;
    string root, told;           // the plan which ran it, the name StartPlan returned
    unsigned runs = 0, noted = 0, ended = 0, lateEnded = 0;
    bool failed = false, exitDone = false, exitOk = false, exitRunning = false, launcherDone = false, told_go = false;
    P::Command *hang = nullptr;
    bool exitWhileBusy = false;
    vector<string> seen;         // what the follower saw of PlanState
  };
  std::deque<Start> starts;
  struct Root { vector<P::NodeState> hist; P::NodeOutcome out = P::NO_OUTCOME; P::FailureType fail = P::NO_FAILURE; bool done = false; };
  std::map<string, Root> roots;
  unsigned lateN = 0;
  std::deque<std::function<void()>> jobs;
  bool stop = false;
};
Ln *LN;
const char *lTypes[] = {"Boolean", "Integer", "Real", "String"};
// types 4..7: arrays of types 0..3
P::Value lScalar(int type)
{
  static const char *s[] = {"", "a", " lead", "trail ", "<&>\"'", "x y", "0", "UNKNOWN", "true", "\xc3\xa9t\xc3\xa9"};
  switch (type) {
  case 0: return P::Value((bool) choose(2));
  case 1: { static const P::Integer i[] = {0, -1, 2147483647, -2147483647 - 1, 16777217, 1000000}; return P::Value(choose(2) ? i[choose(6)] : (P::Integer) choose(2000) - 1000); }
  case 2: { static const double d[] = {0, 1.0 / 3, 1234567.125, 1e-9, -2.5e30, 3, 1e100, 0.1}; return P::Value(choose(2) ? d[choose(8)] : ((int) choose(2000) - 1000) * 0.25); }
  default: return P::Value(choose(2) ? string(s[choose(10)]) : "s" + std::to_string(choose(1000)));
  }
}
P::Value lValue(int type)
{
  if (type < 4) return lScalar(type);
  unsigned n = 1 + choose(4);
  switch (type) {
  case 4: { P::BooleanArray a(n); for (unsigned i = 0; i < n; ++i) { if (chance(1, 8)) a.setElementUnknown(i); else a.setElement(i, (bool) choose(2)); } return P::Value(a); }
  case 5: { P::IntegerArray a(n); for (unsigned i = 0; i < n; ++i) { P::Integer x = 0; lScalar(1).getValue(x); if (chance(1, 8)) a.setElementUnknown(i); else a.setElement(i, x); } return P::Value(a); }
  case 6: { P::RealArray a(n); for (unsigned i = 0; i < n; ++i) { P::Real x = 0; lScalar(2).getValue(x); if (chance(1, 8)) a.setElementUnknown(i); else a.setElement(i, x); } return P::Value(a); }
  default: { P::StringArray a(n); for (unsigned i = 0; i < n; ++i) { string x; lScalar(3).getValue(x); a.setElement(i, x); } return P::Value(a); }   // a plan has no way to write an unknown string
  }
}
P::Value lDefault(int type)
{
  switch (type) {
  case 0: return P::Value(true);
  case 1: return P::Value((P::Integer) 77);
  case 2: return P::Value(2.5);
  case 3: return P::Value(string("dflt"));
  case 4: { P::BooleanArray a(1); a.setElement(0, true); return P::Value(a); }
  case 5: { P::IntegerArray a(1); a.setElement(0, 77); return P::Value(a); }
  case 6: { P::RealArray a(1); a.setElement(0, 2.5); return P::Value(a); }
  default: { P::StringArray a(1); a.setElement(0, string("dflt")); return P::Value(a); }
  }
}
string esc(string const &s)
{
  string r;
  for (char c : s) r += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '>' ? "&gt;" : string(1, c);
  return r;
}
string lText(P::Value const &v)
{
  bool b; P::Integer i; P::Real d; string s;
  char z[60];
  switch (v.valueType()) {
  case P::BOOLEAN_TYPE: v.getValue(b); return b ? "true" : "false";
  case P::INTEGER_TYPE: v.getValue(i); return std::to_string(i);
  case P::REAL_TYPE: v.getValue(d); snprintf(z, sizeof z, "%.17g", d); return z;
  default: v.getValue(s); return esc(s);
  }
}
// the array values of a call are taken from a lookup: a literal array cannot have unknown elements
string lArg(P::Value const &v, int n, unsigned k)
{
  if (!P::isArrayType(v.valueType())) {
    const char *t = v.valueType() == P::BOOLEAN_TYPE ? lTypes[0] : v.valueType() == P::INTEGER_TYPE ? lTypes[1] : v.valueType() == P::REAL_TYPE ? lTypes[2] : lTypes[3];
    return string("<") + t + "Value>" + lText(v) + "</" + t + "Value>";
  }
  return "<LookupNow><Name><StringValue>arr</StringValue></Name><Arguments>" + iv(n) + iv(k) + "</Arguments></LookupNow>";
}
string lVar(Ln::Param const &p) { return p.type < 4 ? string("<") + lTypes[p.type] + "Variable>" + p.name + "</" + lTypes[p.type] + "Variable>" : "<ArrayVariable>" + p.name + "</ArrayVariable>"; }
string lDecl(Ln::Param const &p)
{
  static const char *d[] = {"true", "77", "2.5", "dflt"};
  string t = lTypes[p.type % 4], v = "<" + t + "Value>" + d[p.type % 4] + "</" + t + "Value>";
  if (p.type < 4) return "<DeclareVariable><Name>" + p.name + "</Name><Type>" + t + "</Type><InitialValue>" + v + "</InitialValue></DeclareVariable>";
  return "<DeclareArray><Name>" + p.name + "</Name><Type>" + t + "</Type><MaxSize>8</MaxSize><InitialValue><ArrayValue Type=\"" + t + "\">" + v + "</ArrayValue></InitialValue></DeclareArray>";
}
string look(const char *n, string const &arg, const char *how = "LookupOnChange")
{
  return string("<") + how + "><Name><StringValue>" + n + "</StringValue></Name><Arguments>" + arg + "</Arguments></" + how + ">";
}
string sv(string const &s) { return "<StringValue>" + esc(s) + "</StringValue>"; }
// the body: says what it was given; then ends, waits for go, fails, or hangs in a command
string lBody(Ln::Lib const &l, string const &pre)
{
  string args = sv("body") + ivar("tag");
  for (auto &p : l.params) args += lVar(p);
  string kids = "<Node NodeType=\"Command\"><NodeId>" + pre + "c</NodeId><NodeBody><Command><Name>" + sv("note") + "</Name><Arguments>" + args + "</Arguments></Command></NodeBody></Node>";
  string cd = "<StartCondition>" + finished(pre + "c") + "</StartCondition>";
  if (l.body == 1 || l.body == 4) kids += "<Node NodeType=\"Empty\"><NodeId>" + pre + "w</NodeId>" + cd + "<EndCondition>" + look("go", ivar("tag")) + "</EndCondition></Node>";
  if (l.body == 2) kids += "<Node NodeType=\"Empty\"><NodeId>" + pre + "w</NodeId>" + cd + "<PostCondition><BooleanValue>false</BooleanValue></PostCondition></Node>";
  if (l.body == 3) kids += "<Node NodeType=\"Command\"><NodeId>" + pre + "w</NodeId>" + cd + "<NodeBody><Command><Name>" + sv("hang") + "</Name><Arguments>" + ivar("tag") + "</Arguments></Command></NodeBody></Node>";
  return kids;
}
string lLib(Ln::Lib const &l)
{
  string in = "<DeclareVariable><Name>tag</Name><Type>Integer</Type></DeclareVariable>";
  for (auto &p : l.params) in += lDecl(p);
  // body 4: the library itself fails its invariant when the plan is told to go
  string cond = l.body == 4 ? "<InvariantCondition><NOT><EQBoolean>" + look("go", ivar("tag")) + "<BooleanValue>true</BooleanValue></EQBoolean></NOT></InvariantCondition>" : "";
  if (l.body == 4) cond = "<InvariantCondition><OR><NOT><IsKnown>" + look("go", ivar("tag")) + "</IsKnown></NOT><EQBoolean>" + look("go", ivar("tag")) + "<BooleanValue>false</BooleanValue></EQBoolean></OR></InvariantCondition>";
  return "<PlexilPlan><Node NodeType=\"NodeList\"><NodeId>" + l.id + "</NodeId><Interface><In>" + in + "</In></Interface>" + cond + "<NodeBody><NodeList>" + lBody(l, l.id) + "</NodeList></NodeBody></Node></PlexilPlan>";
}
string handleIs(string const &node, const char *h) { return "<EQInternal><NodeCommandHandleVariable><NodeId>" + node + "</NodeId></NodeCommandHandleVariable><NodeCommandHandleValue>" + h + "</NodeCommandHandleValue></EQInternal>"; }
string cmdXml(string const &id, string const &cond, string const &ret, string const &name, string const &args)
{
  return "<Node NodeType=\"Command\"><NodeId>" + id + "</NodeId>" + cond + "<NodeBody><Command>" + ret + "<Name>" + sv(name) + "</Name><Arguments>" + args + "</Arguments></Command></NodeBody></Node>";
}
// follows the plan called NAME (an expression), notes how it ended, and may end it
string lFollow(int n, string const &name, bool exits)
{
  string N = std::to_string(n), s = "s" + N, sVar = "<StringVariable>" + s + "</StringVariable>";
  string ps = look("PlanState", name);
  string kids = "<Node NodeType=\"Assignment\"><NodeId>V" + N + "</NodeId><StartCondition><NEString>" + ps + sVar + "</NEString></StartCondition><RepeatCondition><NEString>" + sVar + sv("FINISHED") +
    "</NEString></RepeatCondition><NodeBody><Assignment>" + sVar + "<StringRHS>" + ps + "</StringRHS></Assignment></NodeBody></Node>";
  kids += cmdXml("N" + N, "<StartCondition>" + finished("V" + N) + "</StartCondition>", "", "note", sv("end") + iv(n) + name + look("PlanState", name, "LookupNow") + look("PlanOutcome", name, "LookupNow") + look("PlanFailureType", name, "LookupNow"));
  if (exits) {
    string X = "X" + N;
    kids += cmdXml(X, (LN->starts[n].onExec ? "<StartCondition><EQString>" + ps + sv("EXECUTING") + "</EQString></StartCondition>" : "<StartCondition><AND><IsKnown>" + name + "</IsKnown>" + look("quit", iv(n)) + "</AND></StartCondition>") + "<EndCondition><OR>" + handleIs(X, "COMMAND_SUCCESS") + handleIs(X, "COMMAND_FAILED") + "</OR></EndCondition>", "", "ExitPlan", name);
  }
  return kids;
}
string lStart(int n)
{
  Ln::Start &d = LN->starts[n];
  Ln::Lib &l = LN->libs[d.lib];
  string N = std::to_string(n), nm = "nm" + N, nmVar = "<StringVariable>" + nm + "</StringVariable>", S = "S" + N;
  string decls = "<DeclareVariable><Name>" + nm + "</Name><Type>String</Type></DeclareVariable><DeclareVariable><Name>s" + N + "</Name><Type>String</Type><InitialValue><StringValue></StringValue></InitialValue></DeclareVariable>";
  decls += "<DeclareVariable><Name>u" + N + "</Name><Type>String</Type></DeclareVariable>";
  string u = "<StringVariable>u" + N + "</StringVariable>";      // never known
  vector<string> a;
  a.push_back(sv(l.id));
  a.push_back(sv("tag"));
  a.push_back(iv(n));
  for (unsigned k = 0; k < l.params.size(); ++k)
    if (d.vals[k].isKnown()) { a.push_back(sv(l.params[k].name)); a.push_back(lArg(d.vals[k], n, k)); }
  switch (d.err) {
  case 1: a.clear(); break;
  case 2: a[0] = iv(7); break;
  case 3: a[0] = u; break;
  case 4: a.pop_back(); break;
  case 5: a[1] = iv(3); break;
  case 6: a[1] = u; break;
  case 7: a[2] = u; break;
  case 8: a[0] = sv("NoSuchLibrary"); break;
  case 9: a[2] = sv("not a number"); break;
  }
  string args, out;
  for (string &x : a) args += x;
  string ok = "<EndCondition>" + string(d.err ? handleIs(S, "COMMAND_FAILED") : "<AND>" + handleIs(S, "COMMAND_SUCCESS") + "<IsKnown>" + nmVar + "</IsKnown></AND>") + "</EndCondition>";
  string kids = cmdXml(S, ok, nmVar, "StartPlan", args);
  if (!d.err) kids += lFollow(n, nmVar, d.exits);
  return "<PlexilPlan>" + list("L" + N, "", decls, kids) + "</PlexilPlan>";
}
// a plan of the user's own, which may be exited and followed by name all the same
string lOwn(int n)
{
  Ln::Start &d = LN->starts[n];
  Ln::Lib &l = LN->libs[d.lib];
  string N = std::to_string(n);
  string cond = d.exits ? "<ExitCondition>" + look("ExitPlan", sv("O" + N), "LookupNow") + "</ExitCondition>" : "";
  if (l.body == 4) cond += "<InvariantCondition><OR><NOT><IsKnown>" + look("go", ivar("tag")) + "</IsKnown></NOT><EQBoolean>" + look("go", ivar("tag")) + "<BooleanValue>false</BooleanValue></EQBoolean></OR></InvariantCondition>";
  if (d.repeats) {
    cond += "<PostCondition>" + look("good", iv(n), "LookupNow") + "</PostCondition><RepeatCondition>" + look("again", iv(n), "LookupNow") + "</RepeatCondition>";
  }
  if (l.body == 2) cond += "<PostCondition><BooleanValue>false</BooleanValue></PostCondition>";
  Ln::Lib bare = l;
  bare.params.clear();
  return "<PlexilPlan>" + list("O" + N, cond, "<DeclareVariable><Name>tag</Name><Type>Integer</Type><InitialValue>" + iv(n) + "</InitialValue></DeclareVariable>", lBody(bare, "O" + N)) + "</PlexilPlan>";
}
string lOwnFollower(int n)
{
  string N = std::to_string(n);
  return "<PlexilPlan>" + list("L" + N, "", "<DeclareVariable><Name>s" + N + "</Name><Type>String</Type><InitialValue><StringValue></StringValue></InitialValue></DeclareVariable>", lFollow(n, sv("O" + N), LN->starts[n].exits)) + "</PlexilPlan>";
}
string lShow(P::Value const &v) { std::ostringstream s; if (v.isKnown()) s << v; else s << "unknown"; return s.str(); }
// what the lookups must say of a plan which ended
void lCheckEnd(string const &who, string const &name, P::Value const &st, P::Value const &out, P::Value const &fail)
{
  auto it = LN->roots.find(name);
  if (it == LN->roots.end()) violation("launch-name", who + ": a plan called " + name + " never ran");
  Ln::Root &r = it->second;
  if (!r.done) violation("launch-early", who + ": PlanState was FINISHED although plan " + name + " had not finished");
  string s, o, f;
  if (!st.getValue(s) || s != "FINISHED") violation("launch-state", who + ": PlanState(" + name + ") is " + lShow(st) + " after the plan finished");
  if (!out.getValue(o) || o != P::outcomeName(r.out)) violation("launch-outcome", who + ": PlanOutcome(" + name + ") is " + lShow(out) + ", the plan ended with " + P::outcomeName(r.out));
  bool k = fail.getValue(f);
  if (k != (r.fail != P::NO_FAILURE) || (k && f != P::failureTypeName(r.fail))) violation("launch-failure", who + ": PlanFailureType(" + name + ") is " + lShow(fail) + ", the plan ended with " + P::failureTypeName(r.fail));
}
void lNote(P::Command *c, P::AdapterExecInterface *f)
{
  NoPreempt np;
  vector<P::Value> const &a = c->getArgValues();
  string what;
  int n = a.size() > 1 ? intOf(a[1]) : -1;
  if (a.empty() || !a[0].getValue(what) || n < 0 || n >= (int) LN->starts.size()) violation("launch-argument", "a plan was run with tag " + (a.size() > 1 ? lShow(a[1]) : string("(none)")) + ", which nobody passed");
  event("note %s %d", what.c_str(), n);
  Ln::Start &d = LN->starts[n];
  Ln::Lib &l = LN->libs[d.lib];
  if (what == "body") {
    if (++d.noted > 1u + d.repeats) violation("launch-twice", "plan " + std::to_string(n) + " was run twice");
    if (!d.own) {
      if (a.size() != 2 + l.params.size()) violation("launch-argument", "the body has other parameters");
      for (unsigned k = 0; k < l.params.size(); ++k) {
        P::Value const &got = a[2 + k], want = d.vals[k].isKnown() ? d.vals[k] : lDefault(l.params[k].type);
        bool same = got.isKnown() && got.valueType() == want.valueType() && got == want;
        if (!same) violation("launch-argument", "parameter " + l.params[k].name + " of " + l.id + " was passed " + lShow(want) + " and is " + lShow(got));
      }
    }
  }
  else if (what == "end") {
    string nm;
    a.at(2).getValue(nm);
    ++d.ended;
    d.told = nm;
    lCheckEnd("the follower of plan " + std::to_string(n), nm, a.at(3), a.at(4), a.at(5));
  }
  else if (what == "late") {
    string nm;
    a.at(2).getValue(nm);
    ++d.lateEnded;
    lCheckEnd("a plan which asked later", nm, a.at(3), a.at(4), a.at(5));
    count("probe.asked_later");
  }
  LN->jobs.push_back([c, f] { f->handleCommandAck(c, P::COMMAND_SUCCESS); f->notifyOfExternalEvent(); });
}
void lEndHang(Ln::Start &d)
{
  P::Command *c = d.hang;
  d.hang = nullptr;
  LN->jobs.push_back([c] { W->intf->handleCommandAck(c, P::COMMAND_SUCCESS); W->intf->notifyOfExternalEvent(); });
}
void lHang(P::Command *c, P::AdapterExecInterface *)
{
  NoPreempt np;
  Ln::Start &d = LN->starts.at(intOf(c->getArgValues().at(0)));
  d.hang = c;
  if (d.told_go) lEndHang(d);
}
void lAbort(P::Command *c, P::AdapterExecInterface *f)
{
  NoPreempt np;
  LN->starts.at(intOf(c->getArgValues().at(0))).hang = nullptr;
  count("probe.abort");
  LN->jobs.push_back([c, f] { f->handleCommandAbortAck(c, true); f->notifyOfExternalEvent(); });
}
struct LAdapter final : P::InterfaceAdapter {
  LAdapter(P::AdapterExecInterface &i, P::AdapterConf *c) : P::InterfaceAdapter(i, c) { W->intf = &i; }
  bool initialize(P::AdapterConfiguration *c) override
  {
    // one worker answers in order: what a note is owed comes before the answer to its abort
    c->registerCommandHandlerFunction("note", lNote, [](P::Command *c, P::AdapterExecInterface *f) {
      NoPreempt np;
      LN->jobs.push_back([c, f] { f->handleCommandAbortAck(c, true); f->notifyOfExternalEvent(); });
    });
    c->registerCommandHandlerFunction("hang", lHang, lAbort);
    c->registerLookupHandlerFunction("arr", [](P::State const &s, P::LookupReceiver *r) {
      NoPreempt np;
      Ln::Start &d = LN->starts.at(intOf(s.parameter(0)));
      r->update(d.vals.at(intOf(s.parameter(1))));
    });
    c->registerLookupHandlerFunction("good", [](P::State const &s, P::LookupReceiver *r) {
      NoPreempt np;
      Ln::Start &d = LN->starts.at(intOf(s.parameter(0)));
      bool good = d.asked++ >= (unsigned) d.repeats;
      r->update(good);
    });
    c->registerLookupHandlerFunction("again", [](P::State const &s, P::LookupReceiver *r) {
      NoPreempt np;
      Ln::Start &d = LN->starts.at(intOf(s.parameter(0)));
      bool again = d.asked <= (unsigned) d.repeats;
      r->update(again);
    });
    return true;
  }
  bool start() override { return true; }
  void stop() override {}
};
bool lBusy(string const &root)       // the plan is executing and cannot end by itself
{
  auto it = LN->roots.find(root);
  return it != LN->roots.end() && !it->second.hist.empty() && it->second.hist.back() == P::EXECUTING_STATE;
}
void lnTransition(P::NodeTransition const &t)
{
  string const &id = t.node->getNodeId();
  P::Node const *root = t.node;
  while (root->getParent()) root = root->getParent();
  if (root == t.node) {
    Ln::Root &r = LN->roots[id];
    if (r.done && t.newState != P::FINISHED_STATE) violation("launch-name", "two plans called " + id + " ran");
    r.hist.push_back(t.newState);
    if (t.outcome != P::NO_OUTCOME) { r.out = t.outcome; r.fail = t.failure; }
    if (t.newState == P::WAITING_STATE && r.hist.size() > 2) count("probe.root_repeats");
    if (t.newState == P::FINISHED_STATE) r.done = true;
    if (id.compare(0, 3, "Lib") != 0 && id[0] == 'L' && t.newState == P::FINISHED_STATE) {
      int n = atoi(id.c_str() + 1);
      LN->starts.at(n).launcherDone = true;
    }
  }
  if (t.newState == P::EXECUTING_STATE && id.size() > 1 && id.back() == 'c' && (id.compare(0, 3, "Lib") == 0 || id[0] == 'O')) {
    P::NodeImpl const *n = dynamic_cast<P::NodeImpl const *>(t.node);
    P::Expression *e = n ? const_cast<P::NodeImpl *>(n)->findVariable("tag") : nullptr;
    P::Integer tag = -1;
    if (e && e->getValue(tag) && tag >= 0 && tag < (int) LN->starts.size()) { LN->starts[tag].root = root->getNodeId(); ++LN->starts[tag].runs; }
  }
  if (id[0] == 'X') {
    Ln::Start &d = LN->starts.at(atoi(id.c_str() + 1));
    string name = d.own ? "O" + id.substr(1) : d.root;
    if (t.newState == P::EXECUTING_STATE) {
      d.exitRunning = true;
      auto it = LN->roots.find(name);
      d.exitWhileBusy = !name.empty() && lBusy(name) && (LN->libs[d.lib].body == 1 || LN->libs[d.lib].body == 3 || LN->libs[d.lib].body == 4) && !d.goes;
      if (it == LN->roots.end()) d.exitWhileBusy = false;
    }
    if (t.newState == P::FINISHED_STATE) d.exitDone = true;
  }
  if (id[0] == 'S' && t.newState == P::FINISHED_STATE) {
    Ln::Start &d = LN->starts.at(atoi(id.c_str() + 1));
    if (d.err && t.node->getOutcome() == P::SUCCESS_OUTCOME) d.failed = true;
  }
}
void lnAssign(string const &n, P::Value const &v)
{
  string s;
  int k = atoi(n.c_str() + (n[0] == 'n' ? 2 : 1));
  if (n[0] == 'n') {
    if (v.getValue(s)) LN->starts.at(k).told = s;
    return;
  }
  if (n[0] != 's' || !v.getValue(s)) return;
  event("s%d = %s", k, s.c_str());
  if (s.empty()) return;         // its initial value
  LN->starts.at(k).seen.push_back(s);
}
bool lAdd(string const &xml, const char *what)
{
  pugi::xml_document x;
  if (x.load_string(xml.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) inconclusive("harness: plan XML");
  if (W->app->addPlan(&x)) { W->app->notifyExec(); return true; }
  try { P::parsePlan(x.document_element()); }
  catch (std::exception const &e) { violation("plan-rejected", string(what) + ": addPlan refused a valid plan: " + e.what()); }
  violation("plan-rejected", string(what) + ": addPlan refused a valid plan");
}
void lPost(const char *state, int n)
{
  event("post %s(%d)", state, n);
  if (*state == 'g' && LN->libs[LN->starts[n].lib].body == 3) {
    NoPreempt np;
    Ln::Start &d = LN->starts[n];
    d.told_go = true;
    if (d.hang) lEndHang(d);
    return;
  }
  W->intf->handleValueChange(P::State(state, P::Value((P::Integer) n)), P::Value(true));
  W->intf->notifyOfExternalEvent();
}
void lThread(int t)
{
  for (unsigned k = 1 + choose(3); k--;) {
    int n;
    string own, main;
    {
      NoPreempt np;
      n = LN->starts.size();
      LN->starts.emplace_back();
      Ln::Start &d = LN->starts.back();
      d.lib = choose(LN->libs.size());
      d.own = chance(1, 4);
      Ln::Lib &l = LN->libs[d.lib];
      for (auto &p : l.params) d.vals.push_back(chance(1, 5) ? P::Value() : lValue(p.type));
      d.exits = choose(2);
      bool waits = l.body == 1 || l.body == 3 || l.body == 4;
      d.goes = waits && (!d.exits || choose(2));
      if (d.own && l.body == 0 && choose(2)) d.repeats = 1 + choose(2);
      if (!d.own && chance(1, 6)) { d.err = 1 + choose(9); d.exits = d.goes = false; }
      if (!d.err && d.exits && waits && !d.goes && choose(2)) d.onExec = true;
      if (d.own) { own = lOwn(n); main = lOwnFollower(n); } else main = lStart(n);
      event("%s", main.c_str());
    }
    // the loop must not hold a reference: other threads add to the deque
    bool exits = LN->starts[n].exits && !LN->starts[n].onExec, goes = LN->starts[n].goes, isOwn = !own.empty(), err = LN->starts[n].err != 0;
    bool first = isOwn && choose(2);
    if (first) lAdd(own, "a plan of the user's");
    event("thread %d adds L%d", t, n);
    lAdd(main, "a launching plan");
    if (isOwn && !first) { if (choose(2)) sleepFor((nanos) choose(30) * MS); lAdd(own, "a plan of the user's"); }
    if (choose(2)) sleepFor((nanos) choose(60) * MS);
    auto go = [&] { if (goes) { if (LN->libs[LN->starts[n].lib].body == 4 && choose(2)) sleepFor(10 * MS); lPost("go", n); } };
    auto quit = [&] { if (exits) lPost("quit", n); };
    if (choose(2)) { go(); if (choose(2)) sleepFor((nanos) choose(30) * MS); quit(); }
    else { quit(); if (choose(2)) sleepFor((nanos) choose(30) * MS); go(); }
    if (!err && chance(1, 3)) {
      // asks only when it is all over
      auto over = [n] { Ln::Start &d = LN->starts[n]; return d.launcherDone; };
      if (waitUntil("the end of a plan which was launched", over, now() + 60 * SEC)) violation("no-progress", "the follower of plan " + std::to_string(n) + " never ended; threads: " + threadDump());
      if (choose(2)) sleepFor((nanos) choose(3000) * MS);
      string nm;
      { NoPreempt np; nm = isOwn ? "O" + std::to_string(n) : LN->starts[n].told; LN->starts[n].later = true; ++LN->lateN; }
      string N = std::to_string(n), how = choose(2) ? "LookupNow" : "LookupOnChange";
      lAdd("<PlexilPlan>" + cmdXml("Q" + N, "<StartCondition><EQString>" + look("PlanState", sv(nm), how.c_str()) + sv("FINISHED") + "</EQString></StartCondition>", "", "note",
        sv("late") + iv(n) + sv(nm) + look("PlanState", sv(nm), "LookupNow") + look("PlanOutcome", sv(nm), "LookupNow") + look("PlanFailureType", sv(nm), "LookupNow")) + "</PlexilPlan>", "a plan which asks later");
    }
  }
}
void launchWorld()
{
  H h;
  W = &h;
  Ln ln;
  LN = &ln;
  if (choose(3)) params.memPreempt = 0;
  if (chance(1, 4)) { params.stallMean = 400; params.stallMax = (1 + choose(6)) * 20 * MS; }
  s_lst.clear();
  h.app.reset(P::makeExecApplication());
  P::registerSimAdapter();
  static pugi::xml_document doc;
  doc.load_string("<Interfaces><Adapter AdapterType=\"Time\"><Timebase Type=\"Posix\"/></Adapter><Adapter AdapterType=\"SimX\"/><Adapter AdapterType=\"Launcher\"/></Interfaces>");
  if (!h.app->initialize(doc.document_element())) inconclusive("initialize");
  s_tap.hub = h.app->listenerHub();
  h.app->exec()->setExecListener(&s_tap);
  {
    NoPreempt np;
    for (unsigned i = 0, e = 1 + choose(4); i < e; ++i) {
      Ln::Lib l;
      l.id = "Lib" + string(1, 'A' + i) ;
      l.body = choose(5);
      for (unsigned k = 0, m = choose(5); k < m; ++k) l.params.push_back(Ln::Param{"p" + std::to_string(k), (int) choose(8)});
      ln.libs.push_back(l);
      pugi::xml_document *d = new pugi::xml_document;
      if (d->load_string(lLib(l).c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) inconclusive("harness: library XML");
      if (!P::loadLibraryDocument(d)) inconclusive("harness: library");
    }
  }
  if (!h.app->startInterfaces()) inconclusive("startInterfaces");
  if (!h.app->run()) inconclusive("run");
  h.running = true;
  spawn("worker", [] {
    for (;;) {
      waitUntil("adapter work", [] { return LN->stop || !LN->jobs.empty(); });
      if (LN->jobs.empty()) break;
      auto j = LN->jobs.front();
      LN->jobs.pop_front();
      if (chance(1, 3)) sleepFor((nanos) (1 + choose(100)) * MS / 10);
      j();
    }
  });
  unsigned nt = 1 + choose(2);
  for (unsigned t = 0; t < nt; ++t) user("user" + std::to_string(t), [t] { lThread(t); });
  expect("the end of the users", [&h] { return h.live == 0; }, 120 * SEC, "no-progress");
  h.app->notifyExec();
  auto allOver = [&ln] {
    for (auto &d : ln.starts) if (!d.launcherDone || (d.own && d.ended == 0)) return false;
    unsigned late = 0;
    for (auto &d : ln.starts) late += d.lateEnded;
    return late == ln.lateN && ln.jobs.empty(); };
  if (waitUntil("the end of all plans", allOver, now() + 120 * SEC)) {
    string s;
    for (size_t n = 0; n < ln.starts.size(); ++n) {
      auto &d = ln.starts[n];
      if (!d.launcherDone || (d.own && !d.ended)) s += " plan " + std::to_string(n) + (d.own ? " (added by the user, " : " (launched, ") + "call kind " + std::to_string(d.err) + ", body " + std::to_string(ln.libs[d.lib].body) + ")";
    }
    violation("no-progress", "120 s after the last input these have not ended:" + s);
  }
  waitIdle(now() + 5 * SEC);
  std::set<string> names;
  for (size_t n = 0; n < ln.starts.size(); ++n) {
    auto &d = ln.starts[n];
    string who = "plan " + std::to_string(n) + " (" + (d.own ? "added by the user" : "launched from " + ln.libs[d.lib].id) + ")";
    if (d.err) {
      if (d.runs || d.noted) violation("launch-bad-call", who + " ran although its StartPlan command was wrong");
      if (!d.failed) violation("launch-bad-call", who + ": StartPlan did not end with COMMAND_FAILED");
      count("fault.bad_call");
      continue;
    }
    if (d.noted != 1u + d.repeats && !((d.noted == 0 || d.repeats) && (d.exits || ln.libs[d.lib].body == 4))) violation("launch-count", who + " ran " + std::to_string(d.noted) + " times");
    if (d.ended != 1) violation("launch-count", who + " was reported " + std::to_string(d.ended) + " times");
    if (!d.own) {
      if (d.runs && d.root != d.told) violation("launch-name", who + ": StartPlan returned " + d.told + ", the plan is called " + d.root);
      if (!names.insert(d.told).second) violation("launch-name", "two plans launched are called " + d.told);
      if (d.told.compare(0, ln.libs[d.lib].id.size(), ln.libs[d.lib].id) != 0) violation("launch-name", who + " is called " + d.told);
    }
    string name = d.own ? "O" + std::to_string(n) : d.told;
    Ln::Root &r = ln.roots[name];
    // what the follower saw is what happened, perhaps not all of it
    size_t at = 0;
    for (string const &s : d.seen) {
      while (at < r.hist.size() && P::nodeStateName(r.hist[at]) != s) ++at;
      if (at++ == r.hist.size()) {
        string all;
        for (string const &x : d.seen) all += " " + x;
        violation("launch-state", who + ": PlanState went" + all + ", which the plan did not");
      }
    }
    if (d.seen.empty() || d.seen.back() != "FINISHED") violation("launch-state", who + ": PlanState did not become FINISHED");
    // how it ended
    bool waits = ln.libs[d.lib].body == 1 || ln.libs[d.lib].body == 3 || ln.libs[d.lib].body == 4;
    if (d.exits && !d.exitDone) violation("launch-exit", who + ": the ExitPlan command did not end");
    if (!d.exits && r.out == P::INTERRUPTED_OUTCOME) violation("launch-exit", who + " was interrupted by nobody");
    if (waits && !d.goes && r.out != P::INTERRUPTED_OUTCOME && r.out != P::SKIPPED_OUTCOME) violation("launch-exit", who + " ended with " + P::outcomeName(r.out) + " although only ExitPlan could end it");
    if (r.out == P::INTERRUPTED_OUTCOME && r.fail != P::EXITED) violation("launch-exit", who + " was interrupted with failure type " + P::failureTypeName(r.fail));
    if (!d.own && !d.exits && r.out != P::SUCCESS_OUTCOME) violation("launch-outcome", who + " ended with " + P::outcomeName(r.out));
    if (d.own && !d.exits) {
      int b = ln.libs[d.lib].body;
      P::NodeOutcome w = b == 2 || b == 4 ? P::FAILURE_OUTCOME : P::SUCCESS_OUTCOME;
      if (r.out != w && !(b == 4)) violation("launch-outcome", who + " ended with " + P::outcomeName(r.out));
    }
    if (d.exits) count("probe.exit");
    if (d.runs) nontrivial();
    count("probe.launched");
  }
  for (auto &r : ln.roots) if (r.first.compare(0, 3, "Lib") == 0 && !names.count(r.first)) violation("launch-invented", "plan " + r.first + " ran and nobody was told of it");
  h.stopping = true;
  h.app->stop();
  ln.stop = true;
  waitIdle(now() + SEC);
  h.app.reset();
  simtime((double) (now() - 1000 * SEC) / 1e9);
  cover(scheduleHash());
  finish();
}
