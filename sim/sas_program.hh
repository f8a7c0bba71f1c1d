// Part of world_sas.cc (SIM_PROGRAM): the executives which talk to the simulator over the bus.
using bus::B;
using bus::Fld;
using bus::Wire;
typedef std::pair<string, long> Key;            // sender and serial number
struct Exec { string uid; uint32_t serial = 1; };
struct Asked { bool lookup = false; string name; long want = 0, got = 0; int k0 = 0; Req *q = nullptr; bool done = false; };
struct Told { int type; Key to; string name, dest; };   // a response of which the value is still to come
struct Prog {
  bus::Bus b;
  string name;                                  // the simulator's own
  vector<Exec> execs;
  std::map<Key, Asked> asked;
  std::map<long, Told> told;
  int badArgs = -1;
  bool closing = false;
};
Prog *G;

Fld fi(char k, long i) { Fld f; f.k = k; f.i = i; return f; }
Fld fs(string const &s) { Fld f; f.k = 's'; f.s = s; return f; }
Wire head(string const &name, int type, long count, long serial, string const &uid)
{
  Wire w;
  w.name = name;
  w.f = {fi('h', type), fi('h', count), fi('u', serial), fs(uid)};
  return w;
}
Wire trail(string const &dest, long idx, long serial, string const &uid)
{
  switch (choose(5)) {
  case 0: { Wire w = head(dest + BOOLEAN_VALUE_MSG, PlexilMsgType_BooleanValue, idx, serial, uid); w.f.push_back(fi('b', choose(2))); return w; }
  case 1: { Wire w = head(dest + INTEGER_VALUE_MSG, PlexilMsgType_IntegerValue, idx, serial, uid); w.f.push_back(fi('i', choose(100))); return w; }
  case 2: { Wire w = head(dest + REAL_VALUE_MSG, PlexilMsgType_RealValue, idx, serial, uid); Fld f; f.k = 'd'; f.d = choose(100) / 4.0; w.f.push_back(f); return w; }
  case 3: { Wire w = head(dest + STRING_VALUE_MSG, PlexilMsgType_StringValue, idx, serial, uid); w.f.push_back(fs("Shoot0")); return w; }
  default: return head(dest + MSG_BASE, PlexilMsgType_UnknownValue, idx, serial, uid);
  }
}
void sendAll(Exec &x, vector<Wire> const &ws)
{
  nanos d = B->maxDelay ? (nanos) choose(B->maxDelay / US + 1) * US : 0;
  for (Wire const &w : ws) { bus::toExec(x.uid, w, d); if (chance(1, 3)) d += (nanos) choose(B->maxDelay / US + 1) * US / 4; }
}
void ask(bool lookup, string const &name)
{
  NoPreempt np;
  Exec &x = G->execs[choose(G->execs.size())];
  long s = x.serial++;
  string dest = chance(1, 2) ? G->name : "";
  unsigned n = choose(3);
  vector<Wire> ws{head(dest + STRING_VALUE_MSG, lookup ? PlexilMsgType_LookupNow : PlexilMsgType_Command, n, s, x.uid)};
  ws[0].f.push_back(fs(name));
  for (unsigned i = 0; i < n; ++i) ws.push_back(trail(dest, i, s, x.uid));
  Asked a;
  a.lookup = lookup;
  a.name = name;
  a.want = n + 1;
  G->asked[Key(x.uid, s)] = a;
  event("%s asks %s %s, serial %ld, %u arguments", x.uid.c_str(), lookup ? "for the value of" : "for", name.c_str(), s, n);
  sendAll(x, ws);
  if (chance(1, 6)) {
    // things which are none of the simulator's business
    long s2 = x.serial++;
    switch (choose(4)) {
    case 0: sendAll(x, {trail("", choose(3), s2, x.uid)}); break;
    case 1: { Wire w = head(STRING_VALUE_MSG, PlexilMsgType_TelemetryValues, 1, s2, x.uid); w.f.push_back(fs("x0")); sendAll(x, {w, trail("", 0, s2, x.uid)}); break; }
    case 2: { Wire w = head(STRING_VALUE_MSG, PlexilMsgType_Message, 0, s2, x.uid); w.f.push_back(fs(name)); sendAll(x, {w}); break; }
    default: { Wire w = head(RETURN_VALUE_MSG, PlexilMsgType_ReturnValues, 1, s2, x.uid); w.f.push_back(fi('u', 1)); w.f.push_back(fs("other")); sendAll(x, {w, trail("", 0, s2, x.uid)}); break; }
    }
    count("fault.foreign_messages");
  }
}
void request(string const &name) { ask(false, name); }
void lookup(string const &name) { ask(true, name); }

// the program's handler is about to get / has dealt with a message
void delivering(Wire const &w)
{
  NoPreempt np;
  auto it = G->asked.find(Key(w.f[3].s, w.f[2].i));
  if (it == G->asked.end() || ++it->second.got < it->second.want) return;
  Asked &a = it->second;
  if (a.lookup) { a.k0 = W->sentOf[a.name]; event("the simulator gets a lookup of %s", a.name.c_str()); }
  else { a.q = newRequest(a.name); a.q->uid = it->first.first; a.q->serial = it->first.second; }
}
void delivered(Wire const &w)
{
  NoPreempt np;
  auto it = G->asked.find(Key(w.f[3].s, w.f[2].i));
  if (it == G->asked.end() || it->second.got < it->second.want) return;
  Asked &a = it->second;
  if (a.lookup) {
    if (!a.done && !G->closing) violation("no-answer", "a lookup of " + a.name + " by " + w.f[3].s + " was not answered");
  }
  else { a.q->t1 = wall(); event("requested %d", a.q->id); }
}
void response(Told const &t, P::Value const *v, bool lost)
{
  P::Value un;
  if (t.type == PlexilMsgType_TelemetryValues) { responded(MSG_TELEMETRY, t.name, nullptr, v ? *v : un, lost); return; }
  auto it = G->asked.find(t.to);
  if (it == G->asked.end() || it->second.got < it->second.want) violation("id", "a response to something never asked for was sent, to " + t.to.first + " serial " + std::to_string(t.to.second));
  Asked &a = it->second;
  if (!a.lookup) { responded(MSG_COMMAND, a.name, a.q, v ? *v : un, lost); return; }
  if (a.done) violation("duplicate", "a lookup of " + a.name + " was answered twice");
  a.done = true;
  if (!lost) answered(a.name, a.k0, v && v->isKnown() ? v : nullptr);
}
bool leader(Wire const &w, Told &t)
{
  t.type = w.f[0].i;
  if (t.type == PlexilMsgType_ReturnValues) {
    t.to = Key(w.f[5].s, w.f[4].i);
    t.dest = t.to.first;
    if (w.name != t.dest + RETURN_VALUE_MSG) violation("misdirected", "return values for " + t.dest + " were sent as " + w.name);
    return true;
  }
  if (t.type == PlexilMsgType_TelemetryValues) {
    t.name = w.f[4].s;
    if (w.name != STRING_VALUE_MSG) violation("misdirected", "the value of " + t.name + " was published as " + w.name);
    return true;
  }
  return false;
}
void publishing(Wire const &w, bool failed)
{
  NoPreempt np;
  if (w.f.size() < 4) violation("bad-message", "the unknown message " + w.name + " was published");
  if (w.f[3].s != G->name) violation("bad-sender", "a message was published in the name of '" + w.f[3].s + "'");
  long s = w.f[2].i;
  event("publishes %s type %ld serial %ld%s", w.name.c_str(), w.f[0].i, s, failed ? ", in vain" : "");
  Told t;
  if (leader(w, t)) {
    if (G->told.count(s)) violation("serial-reused", "two messages of the simulator have the serial number " + std::to_string(s));
    if (w.f[1].i != 1) violation("bad-message", "a response with " + std::to_string(w.f[1].i) + " values was sent");
    if (failed) response(t, nullptr, true); else G->told[s] = t;
  }
  else {
    auto it = G->told.find(s);
    if (it == G->told.end()) violation("bad-message", "a value without a leader was sent");
    t = it->second;
    G->told.erase(it);
    if (w.f[1].i != 0) violation("bad-message", "the only value has the index " + std::to_string(w.f[1].i));
    string want;
    P::Value v;
    switch (w.f[0].i) {
    case PlexilMsgType_UnknownValue: want = MSG_BASE; break;
    case PlexilMsgType_BooleanValue: want = BOOLEAN_VALUE_MSG; v = P::Value(w.f[4].i != 0); break;
    case PlexilMsgType_IntegerValue: want = INTEGER_VALUE_MSG; v = P::Value((P::Integer) w.f[4].i); break;
    case PlexilMsgType_RealValue: want = REAL_VALUE_MSG; v = P::Value(w.f[4].d); break;
    case PlexilMsgType_StringValue: want = STRING_VALUE_MSG; v = P::Value(w.f[4].s); break;
    default: violation("bad-message", "a message of type " + std::to_string(w.f[0].i) + " was sent as a value");
    }
    if (w.name != t.dest + want) violation("misdirected", "a value for '" + t.dest + "' was sent as " + w.name);
    response(t, failed ? nullptr : &v, failed);
  }
  if (!failed && B->subs.count(w.name)) bus::toExec(G->name, w, B->maxDelay ? (nanos) choose(B->maxDelay / US + 1) * US : 0);
}

string scriptFile(string const &s)
{
  trace("script:\n" + s);
  int fd = memfd_create("script", 0);
  if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t) s.size()) inconclusive("harness: memfd");
  return "/proc/self/fd/" + std::to_string(fd);
}
void prepare(vector<string> &args, std::map<string, Ty> &types)
{
  static Prog g;
  G = &g;
  B = &g.b;
  g.name = "RobotYellow";
  B->maxDelay = choose(3) ? (nanos) (1 + choose(50)) * (choose(2) ? MS : 20 * US) : 0;
  B->failPublish = chance(1, 4) ? 4 + choose(12) : 0;
  B->failConnect = chance(1, 20) ? 1 : 0;
  for (unsigned k = 0, n = 1 + choose(2); k < n; ++k) {
    Exec x;
    x.uid = "exec" + std::to_string(k);
    g.execs.push_back(x);
    for (auto &f : {std::make_pair(MSG_BASE, MSG_BASE_FORMAT), std::make_pair(RETURN_VALUE_MSG, RETURN_VALUE_MSG_FORMAT), std::make_pair(BOOLEAN_VALUE_MSG, BOOLEAN_VALUE_MSG_FORMAT),
                    std::make_pair(INTEGER_VALUE_MSG, INTEGER_VALUE_MSG_FORMAT), std::make_pair(REAL_VALUE_MSG, REAL_VALUE_MSG_FORMAT), std::make_pair(STRING_VALUE_MSG, STRING_VALUE_MSG_FORMAT)})
      B->defs[x.uid + f.first] = bus::parseFormat(f.second);
  }
  B->onPublish = [](Wire const &w) { publishing(w, false); };
  B->onFailed = [](Wire const &w) { publishing(w, true); };
  B->onDeliver = delivering;
  B->onDone = delivered;
  vector<vector<string>> opts;
  unsigned n = 1 + choose(3);
  bool tel = chance(1, 4);
  for (unsigned i = 0; i < n; ++i) {
    // scripts are read in the order they are given, telemetry last
    string f = scriptFile(script(chance(1, 4), i, types));
    opts.push_back({f});
  }
  if (tel) opts.insert(opts.begin() + choose(opts.size() + 1), {"-t", scriptFile(script(true, n, types, true))});
  opts.insert(opts.begin() + choose(opts.size() + 1), {"-d", chance(1, 2) ? "" : "/nonexistent/Debug.cfg"});
  if (chance(1, 2)) { g.name = chance(1, 2) ? "sim" : "Robot 2"; opts.insert(opts.begin() + choose(opts.size() + 1), {"-n", g.name}); }
  if (chance(1, 4)) opts.insert(opts.begin() + choose(opts.size() + 1), {"-central", "somewhere:1381"});
  for (auto &o : opts) args.insert(args.end(), o.begin(), o.end());
  if (chance(1, 20)) {
    // command lines which are not right
    static const char *const miss[] = {"-n", "-t", "-central", "-d"};
    switch (choose(4)) {
    case 0: args.push_back(miss[choose(4)]); g.badArgs = 1; break;
    case 1: args.insert(args.begin() + 1, "-h"); g.badArgs = 0; break;
    case 2: args.insert(args.begin() + 1, "-x"); g.badArgs = 1; break;
    default: args.resize(1); g.badArgs = 1; break;
    }
    count("fault.bad_arguments");
  }
}
int expectedStatus() { return G->badArgs >= 0 ? G->badArgs : B->connectFailed; }
// executives which do not wait for the simulator to be ready
void earlyRequests(vector<string> const &names, vector<string> const &states)
{
  if (!chance(1, 2)) return;
  for (unsigned n = 1 + choose(3); n; --n) {
    if (chance(1, 2)) sleepFor((nanos) choose(200) * 10 * US);
    if (chance(2, 3)) ask(false, names[choose(names.size())]);
    else ask(true, states[choose(states.size())]);
    count("fault.early_request");
  }
}
