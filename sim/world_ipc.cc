// W7: the real IpcAdapter and IpcFacade inside the real application, talking to
// model agents over a simulated message bus.
#include "simipc.hh"

#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "ExecApplication.hh"
#include "ExecListenerHub.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceManager.hh"
#include "LookupReceiver.hh"
#include "Node.hh"
#include "NodeTransition.hh"
#include "PlexilExec.hh"
#include "State.hh"
#include "NodeConstants.hh"
#include "pugixml.hpp"

#include <algorithm>
#include <cstring>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>

namespace P = PLEXIL;
namespace PLEXIL { void registerSimAdapter(); }
extern "C" void initIpcAdapter();
using namespace bus;

namespace {
enum Ty { BOOL, INT, REAL, STR };
struct Val {
  Ty t = INT;
  bool known = true, arr = false;
  struct Item { long i = 0; double d = 0; string s; bool unk = false; };
  vector<Item> v;               // one item, or the elements
};
const char *const ME = "exec";

// ------------------------------------------------------------------ the values
string word(unsigned max)
{
  static const char A[] = "abcXYZ019 _-<&>\"':";
  string s;
  unsigned n = choose(max + 1);
  for (unsigned i = 0; i < n; ++i) s += A[choose(sizeof A - 1)];
  return s;
}
Val::Item item(Ty t)
{
  Val::Item it;
  switch (t) {
  case BOOL: it.i = choose(2); break;
  case INT: it.i = choose(4) ? (long) choose(2000) - 1000 : choose(2) ? 2147483647L : -2147483648L; break;
  case REAL: it.d = choose(4) ? (double) choose(100000) / 7 - 5000 : choose(2) ? -1.25e300 : 0; break;
  case STR: it.s = word(10); break;
  }
  return it;
}
Val value(Ty t, int arr = -1)
{
  Val v;
  v.t = t;
  v.arr = arr < 0 ? chance(1, 4) : arr;
  for (unsigned i = 0, n = v.arr ? 1 + choose(3) : 1; i < n; ++i) v.v.push_back(item(t));
  return v;
}
Val anyValue() { return value((Ty) choose(4)); }
Val unknown() { Val v; v.known = false; v.v.resize(1); return v; }
Val intv(long i) { Val v; v.t = INT; v.v.resize(1); v.v[0].i = i; return v; }
Val strv(string const &s) { Val v; v.t = STR; v.v.resize(1); v.v[0].s = s; return v; }
string show(Val const &v)
{
  if (!v.known) return "UNKNOWN";
  std::ostringstream o;
  if (v.arr) o << '#' << v.v.size() << '(';
  for (size_t i = 0; i < v.v.size(); ++i) {
    if (i) o << ' ';
    o.precision(17);
    if (v.v[i].unk) o << '?'; else if (v.t == STR) o << '"' << v.v[i].s << '"'; else if (v.t == REAL) o << v.v[i].d; else if (v.t == BOOL) o << (v.v[i].i ? "true" : "false"); else o << v.v[i].i;
  }
  if (v.arr) o << ')';
  return o.str();
}
bool same(Val const &a, Val const &b)
{
  if (a.known != b.known) return false;
  if (!a.known) return true;
  if (a.t != b.t || a.arr != b.arr || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); ++i)
    if (a.t == STR ? a.v[i].s != b.v[i].s : a.t == REAL ? a.v[i].d != b.v[i].d : a.t == BOOL ? !a.v[i].i != !b.v[i].i : a.v[i].i != b.v[i].i) return false;
  return true;
}
template <class A, class F> bool elements(P::Value const &v, Val &o, F f)
{
  A const *a = nullptr;
  if (!v.getValuePointer(a)) return false;
  o.arr = true;
  for (size_t i = 0; i < a->size(); ++i) { Val::Item it; it.unk = !f(*a, i, it); o.v.push_back(it); }
  return true;
}
Val fromValue(P::Value const &v)
{
  Val o;
  if (!v.isKnown()) return unknown();
  Val::Item it;
  switch (v.valueType()) {
  case P::BOOLEAN_TYPE: { bool b = false; v.getValue(b); it.i = b; o.t = BOOL; o.v.push_back(it); break; }
  case P::INTEGER_TYPE: { P::Integer i = 0; v.getValue(i); it.i = i; o.t = INT; o.v.push_back(it); break; }
  case P::REAL_TYPE: { P::Real d = 0; v.getValue(d); it.d = d; o.t = REAL; o.v.push_back(it); break; }
  case P::STRING_TYPE: { P::String const *s = nullptr; v.getValuePointer(s); it.s = *s; o.t = STR; o.v.push_back(it); break; }
  case P::BOOLEAN_ARRAY_TYPE: o.t = BOOL; elements<P::BooleanArray>(v, o, [](P::BooleanArray const &a, size_t i, Val::Item &it) { bool b = false; bool k = a.getElement(i, b); it.i = b; return k; }); break;
  case P::INTEGER_ARRAY_TYPE: o.t = INT; elements<P::IntegerArray>(v, o, [](P::IntegerArray const &a, size_t i, Val::Item &it) { P::Integer b = 0; bool k = a.getElement(i, b); it.i = b; return k; }); break;
  case P::REAL_ARRAY_TYPE: o.t = REAL; elements<P::RealArray>(v, o, [](P::RealArray const &a, size_t i, Val::Item &it) { P::Real b = 0; bool k = a.getElement(i, b); it.d = b; return k; }); break;
  case P::STRING_ARRAY_TYPE: o.t = STR; elements<P::StringArray>(v, o, [](P::StringArray const &a, size_t i, Val::Item &it) { P::String const *s = nullptr; bool k = a.getElementPointer(i, s); if (k) it.s = *s; return k; }); break;
  default: it.s = "of another type"; o.t = STR; o.v.push_back(it);
  }
  return o;
}

// -------------------------------------------------------------------- the wire
Fld fld(char k, long i) { Fld f; f.k = k; f.i = i; return f; }
Fld fstr(string const &s) { Fld f; f.k = 's'; f.s = s; return f; }
Wire header(const char *name, string const &dest, int type, long count, long serial, string const &uid)
{
  Wire w;
  w.name = dest + name;
  w.f = {fld('h', type), fld('h', count), fld('u', serial), fstr(uid)};
  return w;
}
const char *nameOf(Val const &v)
{
  static const char *const S[] = {BOOLEAN_VALUE_MSG, INTEGER_VALUE_MSG, REAL_VALUE_MSG, STRING_VALUE_MSG};
  static const char *const A[] = {BOOLEAN_ARRAY_MSG, INTEGER_ARRAY_MSG, REAL_ARRAY_MSG, STRING_ARRAY_MSG};
  return !v.known ? MSG_BASE : v.arr ? A[v.t] : S[v.t];
}
int typeOf(Val const &v)
{
  static const int S[] = {PlexilMsgType_BooleanValue, PlexilMsgType_IntegerValue, PlexilMsgType_RealValue, PlexilMsgType_StringValue};
  static const int A[] = {PlexilMsgType_BooleanArray, PlexilMsgType_IntegerArray, PlexilMsgType_RealArray, PlexilMsgType_StringArray};
  return !v.known ? PlexilMsgType_UnknownValue : v.arr ? A[v.t] : S[v.t];
}
Fld itemFld(Ty t, Val::Item const &it)
{
  Fld f;
  f.k = "bids"[t];
  if (t == STR) f.s = it.s; else if (t == REAL) f.d = it.d; else f.i = it.i;
  return f;
}
Wire trailer(Val const &v, string const &dest, long idx, long serial, string const &uid)
{
  Wire w = header(nameOf(v), dest, typeOf(v), idx, serial, uid);
  if (!v.known) return w;
  if (!v.arr) { w.f.push_back(itemFld(v.t, v.v[0])); return w; }
  w.f.push_back(fld('i', v.v.size()));
  Fld a;
  a.k = '<';
  for (auto &it : v.v) a.a.push_back(itemFld(v.t, it));
  w.f.push_back(a);
  return w;
}
Val::Item fromFld(Ty t, Fld const &f) { Val::Item it; it.i = f.i; it.d = f.d; it.s = f.s; return it; }
// A value or pair as other programs would read it.
bool readTrailer(Wire const &w, string const &base, Val &v, string &pair)
{
  int t = w.f[0].i;
  size_t at = 4;
  Ty ty = INT;
  switch (t) {
  case PlexilMsgType_UnknownValue: v = unknown(); return base == MSG_BASE;
  case PlexilMsgType_BooleanValue: case PlexilMsgType_BooleanArray: case PlexilMsgType_PairBoolean: ty = BOOL; break;
  case PlexilMsgType_IntegerValue: case PlexilMsgType_IntegerArray: case PlexilMsgType_PairInteger: ty = INT; break;
  case PlexilMsgType_RealValue: case PlexilMsgType_RealArray: case PlexilMsgType_PairReal: ty = REAL; break;
  case PlexilMsgType_StringValue: case PlexilMsgType_StringArray: case PlexilMsgType_PairString: ty = STR; break;
  default: return false;
  }
  static const char *const PN[] = {BOOLEAN_PAIR_MSG, INTEGER_PAIR_MSG, REAL_PAIR_MSG, STRING_PAIR_MSG};
  v = Val();
  v.t = ty;
  string want;
  if (t >= PlexilMsgType_PairBoolean) { if (w.f.size() < 5) return false; pair = w.f[at++].s; want = PN[ty]; }
  else { v.arr = t == PlexilMsgType_BooleanArray || t == PlexilMsgType_IntegerArray || t == PlexilMsgType_RealArray || t == PlexilMsgType_StringArray; want = nameOf(v); }
  if (base != want || w.f.size() <= at) return false;
  if (v.arr) { if (w.f.size() <= at + 1) return false; for (Fld const &f : w.f[at + 1].a) v.v.push_back(fromFld(ty, f)); }
  else v.v.push_back(fromFld(ty, w.f[at]));
  return true;
}

// ------------------------------------------------------------------- the world
struct Seq { int type = 0; string name, dest; long count = 0, serial = 0; vector<Val> v; vector<string> pair; bool dead = false; long reqSerial = 0; };
struct Agent { string uid; uint32_t serial = 1; std::deque<Seq> in; };
struct Rep { bool sent = false, got = false; Val v; };
struct CmdSpec {                 // a Command node of a plan, executed n times
  string name, dest;
  vector<Val> args;              // after the identification
  bool ret = false, self = false;
  Val proto;                     // the kind of return value
  std::map<long, unsigned> seen; // iteration -> how often it was published whole
  std::map<long, bool> dead;     // its publication failed
  std::map<long, Rep> rep;
};
struct InCmd { long serial; string uid; vector<Val> args; bool got = false, replied = false; };
struct InName {                  // something a plan receives: a command or a message
  bool msg = false;
  string name;
  int agent = 0;                 // -1: the executive itself
  vector<Val> proto;             // kinds of the parameters
  unsigned want = 0, receivers = 1, got = 0, sent = 0, lossAllowed = 0;
  vector<InCmd> cmds;            // in the order they were sent
  std::map<int, long> last;
};
struct LkSpec { string state, dest; bool counter = false; Val proto; vector<Val> args; std::map<long, Val> rep; std::map<long, bool> dead; std::map<int, long> last; std::set<long> again; long next = 1; };
struct Tele { string state; int agent; long cur = 0, top = 0, seen = -1; bool open = false; };
struct Ext { string name; Val def; bool counted = false; long last = -1, done = -1; };    // values set to the plain state: i
struct UpdSpec { std::map<string, Val> pairs; std::map<long, unsigned> seen; };
struct Text { bool bad = false, lib = false, file = false; string xml; int id = -1; unsigned ran = 0; bool sent = false; int fd = -1; int after = -1; };
struct H {
  std::unique_ptr<P::ExecApplication> app;
  P::AdapterExecInterface *intf = nullptr;
  vector<Agent> agents;
  vector<CmdSpec> cmds;
  vector<InName> names;
  vector<LkSpec> lks;
  vector<Tele> teles;
  vector<Ext> exts;
  vector<UpdSpec> upds;
  vector<Text> texts;
  vector<std::pair<string, bool>> outMsgs;     // SendMessage texts seen leaving
  std::map<long, Seq> open;                    // sequences of the executive being published
  std::set<long> serials;
  std::map<long, std::pair<int, long>> asked;  // external lookups asked by agents: serial*16+agent -> ext, lower bound
  unsigned partsLeft = 0, plansLeft = 0, aborts = 0, epoch = 0, seq = 1, deferred = 0, undefinedDest = 0, updLost = 0;
  bool quiet = false, stopping = false, aborting = false, dup = true, over = false;
};
H *W;

void publishAs(int k, vector<Wire> const &ws)
{
  nanos d = B->maxDelay ? (nanos) choose(B->maxDelay / US + 1) * US : 0;
  for (Wire const &w : ws) {
    toExec(W->agents[k].uid, w, d);
    if (B->maxDelay && choose(3) == 0) d += (nanos) choose(B->maxDelay / US + 1) * US;
  }
}
vector<Wire> sequence(int k, int type, string const &dest, string const &name, vector<Val> const &v, uint32_t *serial = nullptr)
{
  Agent &a = W->agents[k];
  uint32_t s = a.serial++;
  if (serial) *serial = s;
  vector<Wire> ws;
  Wire w = header(STRING_VALUE_MSG, dest, type, v.size(), s, a.uid);
  w.f.push_back(fstr(name));
  ws.push_back(w);
  string td = dest.empty() || choose(2) ? dest : "";
  for (size_t i = 0; i < v.size(); ++i) ws.push_back(trailer(v[i], td, i, s, a.uid));
  return ws;
}
vector<Wire> returnValue(int k, long reqSerial, string const &to, Val const &v, bool broadcast = false)
{
  Agent &a = W->agents[k];
  uint32_t s = a.serial++;
  Wire w = header(RETURN_VALUE_MSG, broadcast ? "" : to, PlexilMsgType_ReturnValues, 1, s, a.uid);
  w.f.push_back(fld('u', reqSerial));
  w.f.push_back(fstr(to));
  return {w, trailer(v, broadcast ? "" : to, 0, s, a.uid)};
}
void later(nanos d, std::function<void()> f)
{
  ++W->deferred;
  after(d, [f] { --W->deferred; if (!W->stopping) f(); });
}
nanos reaction() { return choose(2) ? (nanos) choose(20) * 100 * US : (nanos) choose(40) * 10 * MS; }

// ------------------------------------------------ what leaves the executive
InName *inName(string const &n, bool msg) { for (InName &x : W->names) if (x.name == n && x.msg == msg) return &x; return nullptr; }
int agentOf(string const &dest) { for (size_t i = 0; i < W->agents.size(); ++i) if (W->agents[i].uid == dest) return i; return -1; }
void whole(Seq const &s)
{
  switch (s.type) {
  case PlexilMsgType_Message:
    W->outMsgs.push_back({s.name, false});
    if (InName *n = inName(s.name, true)) ++n->sent;
    break;
  case PlexilMsgType_Command: {
    if (s.v.empty() || !s.v[0].known || s.v[0].t != INT) violation("command-wrong", "the command " + s.name + " left with " + std::to_string(s.v.size()) + " arguments which are not its own");
    long id = s.v[0].v[0].i, i = id % 1000;
    if (id / 1000 >= (long) W->cmds.size()) violation("command-wrong", "the command " + s.name + " left with the first argument " + show(s.v[0]));
    CmdSpec &c = W->cmds[id / 1000];
    if (s.name != c.name || s.dest != c.dest) violation("command-misdirected", "the command " + c.name + " for '" + c.dest + "' left as " + s.name + " for '" + s.dest + "'");
    if (s.v.size() != c.args.size() + 1) violation("command-wrong", "the command " + c.name + " has " + std::to_string(c.args.size() + 1) + " arguments and left with " + std::to_string(s.v.size()));
    for (size_t k = 0; k < c.args.size(); ++k)
      if (!same(c.args[k], s.v[k + 1])) violation("command-wrong", "argument " + std::to_string(k + 1) + " of " + c.name + " is " + show(c.args[k]) + " and left as " + show(s.v[k + 1]));
    if (++c.seen[i] > 1) violation("command-twice", "the command " + c.name + " was published twice for one execution");
    event("command %s %ld/%ld leaves", c.name.c_str(), id / 1000, i);
    if (c.self) {
      InName *n = inName(c.name, false);
      InCmd x;
      x.serial = s.serial;
      x.uid = ME;
      x.args = s.v;
      n->cmds.push_back(x);
      ++n->sent;
    }
    break;
  }
  case PlexilMsgType_PlannerUpdate: {
    long id = -1;
    std::map<string, Val> m;
    for (size_t i = 0; i < s.v.size(); ++i) {
      if (!m.insert({s.pair[i], s.v[i]}).second) violation("update-wrong", "the pair " + s.pair[i] + " of a planner update was sent twice");
      if (s.pair[i] == "id" && s.v[i].t == INT) id = s.v[i].v[0].i;
    }
    if (id < 0 || id / 1000 >= (long) W->upds.size()) violation("update-wrong", "a planner update left without its own pairs");
    UpdSpec &u = W->upds[id / 1000];
    if (s.name != "U" + std::to_string(id / 1000) + "u") violation("update-wrong", "a planner update of node U" + std::to_string(id / 1000) + "u left in the name of " + s.name);
    for (auto &p : u.pairs)
      if (!m.count(p.first)) violation("update-wrong", "the pair " + p.first + " of a planner update did not leave");
      else if (!same(p.second, m[p.first])) violation("update-wrong", "the pair " + p.first + " of a planner update is " + show(p.second) + " and left as " + show(m[p.first]));
    if (m.size() != u.pairs.size() + 1) violation("update-wrong", "a planner update has " + std::to_string(u.pairs.size() + 1) + " pairs and left with " + std::to_string(m.size()));
    if (++u.seen[id % 1000] > 1) violation("update-twice", "a planner update was published twice");
    break;
  }
  default: break;
  }
  for (size_t k = 0; k < W->agents.size(); ++k)
    if (s.dest.empty() || s.dest == W->agents[k].uid) {
      Seq c = s;
      later(reaction(), [k, c] { W->agents[k].in.push_back(c); });
    }
}
string baseName(string const &n, string &dest)
{
  static const char *const ALL[] = {MSG_BASE, RETURN_VALUE_MSG, BOOLEAN_VALUE_MSG, INTEGER_VALUE_MSG, REAL_VALUE_MSG, STRING_VALUE_MSG, BOOLEAN_ARRAY_MSG,
    INTEGER_ARRAY_MSG, REAL_ARRAY_MSG, STRING_ARRAY_MSG, BOOLEAN_PAIR_MSG, INTEGER_PAIR_MSG, REAL_PAIR_MSG, STRING_PAIR_MSG};
  string best;
  for (const char *b : ALL) {
    size_t l = strlen(b);
    if (n.size() >= l && n.compare(n.size() - l, l, b) == 0 && l > best.size()) best = b;
  }
  dest = n.substr(0, n.size() - best.size());
  return best;
}
void published(Wire const &w)
{
  string dest, base = baseName(w.name, dest);
  if (base.empty() || w.f.size() < 4) violation("bad-message", "a message of the unknown kind " + w.name + " was published");
  int type = w.f[0].i;
  long count = w.f[1].i, serial = w.f[2].i;
  if (w.f[3].s != ME) violation("bad-sender", "a message was published in the name of '" + w.f[3].s + "'");
  event("publishes %s type %d count %ld serial %ld%s%s", w.name.c_str(), type, count, serial, w.f.size() > 4 && w.f[4].k == 's' ? " " : "", w.f.size() > 4 ? w.f[4].s.c_str() : "");
  if (dest.empty() || dest == ME) toExec(ME, w, B->maxDelay ? (nanos) choose(B->maxDelay / US + 1) * US : 0);
  if (type < PlexilMsgType_UnknownValue) {
    if (!W->serials.insert(serial).second) violation("serial-reused", "two messages of the executive have the serial number " + std::to_string(serial));
    Seq s;
    s.type = type;
    s.dest = dest;
    s.count = type == PlexilMsgType_Message ? 0 : count;
    s.serial = serial;
    if (type == PlexilMsgType_ReturnValues) {
      if (base != RETURN_VALUE_MSG) violation("bad-message", "return values were published as " + w.name);
      s.reqSerial = w.f[4].i;
      s.name = w.f[5].s;
      if (s.name != dest) violation("return-misdirected", "return values for " + s.name + " were sent to '" + dest + "'");
    }
    else {
      if (base != STRING_VALUE_MSG) violation("bad-message", "a message of type " + std::to_string(type) + " was published as " + w.name);
      s.name = w.f[4].s;
    }
    if (!s.count) whole(s); else W->open[serial] = s;
    return;
  }
  auto it = W->open.find(serial);
  if (it == W->open.end()) violation("stray-part", "a value was published for serial " + std::to_string(serial) + ", which is not open");
  Seq &s = it->second;
  if (s.dead) violation("part-after-failure", "the sequence " + s.name + " goes on after a part of it could not be published");
  if (count != (long) s.v.size()) violation("part-order", "part " + std::to_string(count) + " of " + s.name + " was published in place " + std::to_string(s.v.size()));
  if (!dest.empty() && dest != s.dest) violation("part-misdirected", "a part of " + s.name + " for '" + s.dest + "' was sent to '" + dest + "'");
  Val v;
  string pair;
  if (!readTrailer(w, base, v, pair)) violation("bad-message", "a value of type " + std::to_string(type) + " was published as " + w.name);
  s.v.push_back(v);
  s.pair.push_back(pair);
  if ((long) s.v.size() == s.count) { Seq c = s; W->open.erase(it); whole(c); }
}
void refused(Wire const &w)
{
  if (w.f.empty()) { ++W->undefinedDest; return; }
  long serial = w.f[2].i;
  int type = w.f[0].i;
  auto it = W->open.find(serial);
  Seq s;
  if (it != W->open.end()) { it->second.dead = true; s = it->second; }
  else if (type < PlexilMsgType_UnknownValue) { s.type = type; if (w.f.size() > 4) s.name = w.f[4].s; W->serials.insert(serial); s.dead = true; s.count = 1; W->open[serial] = s; }
  // an update which failed never ends: its node waits for a positive acknowledgement
  if (s.type == PlexilMsgType_PlannerUpdate) ++W->updLost;
}

// --------------------------------------------------------------------- agents
void agentTakes(int k, Seq const &s)
{
  Agent &a = W->agents[k];
  switch (s.type) {
  case PlexilMsgType_Command: {
    long id = s.v[0].v[0].i;
    CmdSpec &c = W->cmds[id / 1000];
    if (c.self || !c.ret) return;
    if (c.dest.empty() && id / 1000 % (long) W->agents.size() != k) return;
    long i = id % 1000;
    Val v = value(c.proto.t, c.proto.arr);
    if (c.proto.arr) v.v.resize(c.proto.v.size(), item(c.proto.t));
    long serial = s.serial;
    bool bc = choose(4) == 0;
    later(reaction(), [k, id, i, v, serial, bc] {
      CmdSpec &c = W->cmds[id / 1000];
      c.rep[i].sent = true;
      c.rep[i].v = v;
      event("agent %d answers command %ld/%ld: %s", k, id / 1000, i, show(v).c_str());
      publishAs(k, returnValue(k, serial, ME, v, bc));
    });
    break;
  }
  case PlexilMsgType_LookupNow: {
    for (Tele &t : W->teles)
      if (t.state == s.name && t.agent == k) {
        long serial = s.serial;
        bool byTele = choose(2);
        Tele *tp = &t;
        later(reaction(), [k, tp, serial, byTele] {
          event("agent %d answers %s: %ld", k, tp->state.c_str(), tp->cur);
          if (byTele) publishAs(k, sequence(k, PlexilMsgType_TelemetryValues, "", tp->state, {intv(tp->cur)}));
          else publishAs(k, returnValue(k, serial, ME, intv(tp->cur)));
        });
        return;
      }
    for (size_t j = 0; j < W->lks.size(); ++j) {
      LkSpec &l = W->lks[j];
      if (l.state != s.name || l.dest != s.dest) continue;
      if (l.dest.empty() && (int) (j % W->agents.size()) != k) return;
      long i = -1;
      if (!l.counter) {
        if (s.v.size() != l.args.size() + 1) violation("lookup-wrong", "the lookup of " + l.state + " has " + std::to_string(l.args.size() + 1) + " arguments and left with " + std::to_string(s.v.size()));
        for (size_t q = 0; q < l.args.size(); ++q) if (!same(l.args[q], s.v[q + 1])) violation("lookup-wrong", "argument " + std::to_string(q + 1) + " of the lookup of " + l.state + " is " + show(l.args[q]) + " and left as " + show(s.v[q + 1]));
        i = s.v[0].v[0].i;
      }
      else if (!s.v.empty()) violation("lookup-wrong", "the lookup of " + l.state + " left with arguments");
      Val v;
      if (l.counter) { i = l.next++; v = intv(i); }
      else if (l.rep.count(i)) v = l.rep[i];
      else { v = chance(1, 8) ? unknown() : value(l.proto.t, l.proto.arr); if (l.proto.arr && v.known) v.v.resize(l.proto.v.size(), item(l.proto.t)); }
      unsigned how = choose(5);
      long serial = s.serial;
      vector<Val> tv = s.v;
      string state = s.name;
      nanos again = choose(3) ? 0 : reaction();
      later(reaction(), [k, j, i, v, how, serial, tv, state, again] {
        W->lks[j].rep[i] = v;
        event("agent %d answers lookup %s %ld: %s", k, state.c_str(), i, show(v).c_str());
        vector<Val> t = tv;
        t.insert(t.begin(), v);
        vector<Wire> rv = how % 3 == 0 ? sequence(k, PlexilMsgType_TelemetryValues, "", state, t) : returnValue(k, serial, ME, v, how == 1);
        publishAs(k, rv);
        // the same answer once more, some other way
        if (how % 3 == 0 || how == 4) W->lks[j].again.insert(i);
        if (how == 4) { count("fault.answer_twice"); publishAs(k, sequence(k, PlexilMsgType_TelemetryValues, "", state, t)); }
        if (how == 3) { count("fault.answer_twice"); publishAs(k, returnValue(k, serial, ME, v)); }
      });
      return;
    }
    break;
  }
  case PlexilMsgType_ReturnValues: {
    auto q = W->asked.find(s.reqSerial * 16 + k);
    if (q != W->asked.end()) {
      Ext &e = W->exts[q->second.first];
      Val v = s.v[0];
      event("agent %d reads %s: %s", k, e.name.c_str(), show(v).c_str());
      nontrivial();
      bool ok = false;
      if (e.counted) {
        if (v.known && v.t == INT && !v.arr) { long i = v.v[0].i; ok = i >= q->second.second && i <= e.last + 1; }
      }
      else ok = same(v, e.def);
      if (!ok) violation("external-wrong", "an agent asked for " + e.name + " and got " + show(v) + (e.counted ? "; the values set between the question and the answer are " + std::to_string(q->second.second) + " to " + std::to_string(e.last) : "; its value is " + show(e.def)));
      W->asked.erase(q);
      return;
    }
    for (InName &n : W->names)
      if (!n.msg && n.agent == k)
        for (InCmd &c : n.cmds)
          if (c.serial == s.reqSerial) {
            event("agent %d gets the return value of %s: %s", k, n.name.c_str(), show(s.v[0]).c_str());
            if (c.replied) violation("return-twice", "the command " + n.name + " of agent " + std::to_string(k) + " was answered twice");
            c.replied = true;
            Val want = c.args.empty() ? intv(7) : c.args[0];
            if (!same(want, s.v[0])) violation("return-wrong", "the return value of " + n.name + " is " + show(want) + " and reached the sender as " + show(s.v[0]));
            return;
          }
    violation("return-invented", "agent " + std::to_string(k) + " got a return value for serial " + std::to_string(s.reqSerial) + ", which it never used for a command or lookup");
  }
  default: break;
  }
}
void sendNext(InName &n)
{
  int k = n.agent;
  ++n.sent;
  if (n.msg) {
    event("agent %d sends message %s", k, n.name.c_str());
    publishAs(k, sequence(k, PlexilMsgType_Message, choose(3) ? "" : ME, n.name, {}));
    return;
  }
  InCmd c;
  for (Val const &p : n.proto) {
    Val v = value(p.t, p.arr);
    if (p.arr) v.v.resize(p.v.size(), item(p.t));
    c.args.push_back(v);
  }
  if (!c.args.empty() && !c.args[0].arr) { long q = W->seq++; if (c.args[0].t == INT) c.args[0].v[0].i = q; else if (c.args[0].t == STR) c.args[0].v[0].s = "s" + std::to_string(q); }
  c.uid = W->agents[k].uid;
  uint32_t s;
  bool crash = !W->quiet && chance(1, 5);
  vector<Wire> ws = sequence(k, PlexilMsgType_Command, choose(3) ? "" : ME, n.name, c.args, &s);
  if (crash && ws.size() > 1) {
    // the agent dies in the middle, and starts anew with the numbers it had
    vector<Wire> part(ws.begin(), ws.begin() + 1 + choose(ws.size() - 1));
    count("fault.agent_crash");
    event("agent %d crashes in the middle of %s", k, n.name.c_str());
    publishAs(k, part);
  }
  c.serial = s;
  n.cmds.push_back(c);
  event("agent %d sends command %s serial %u", k, n.name.c_str(), s);
  publishAs(k, ws);
}
void noise(int k)
{
  Agent &a = W->agents[k];
  switch (choose(8)) {
  case 0: { uint32_t s = a.serial++; publishAs(k, {trailer(anyValue(), "", choose(3), s, a.uid)}); count("fault.stray_value"); break; }
  case 1: publishAs(k, returnValue(k, 900000 + choose(1000), ME, anyValue())); count("fault.stray_return"); break;
  case 2: publishAs(k, returnValue(k, 1 + choose(20), "somebody", anyValue(), true)); count("fault.foreign_return"); break;
  case 3: publishAs(k, {header(MSG_BASE, "", PlexilMsgType_NotifyExec, 0, a.serial++, a.uid)}); count("probe.notify_exec"); break;
  case 4: publishAs(k, sequence(k, PlexilMsgType_TelemetryValues, "", choose(2) ? "nobody" : "", choose(2) ? vector<Val>() : vector<Val>{anyValue()})); count("fault.empty_telemetry"); break;
  case 5: publishAs(k, {header(MSG_BASE, "", 100 + choose(60000), 0, a.serial++, a.uid)}); count("fault.unknown_type"); break;
  case 6: publishAs(k, sequence(k, PlexilMsgType_PlannerUpdate, "", "x", {})); break;
  default: publishAs(k, sequence(k, PlexilMsgType_LookupNow, "", "nosuch", choose(2) ? vector<Val>() : vector<Val>{anyValue(), anyValue()})); count("probe.foreign_lookup"); break;
  }
}
bool wantsMore(InName &n)
{
  if (n.agent < 0 || n.got >= n.want) return false;
  if (W->dup && !W->aborting && !B->failPublish) return n.sent < n.want;
  return n.sent < 400 || W->quiet;
}
void spontaneous(int k)
{
  vector<std::function<void()>> f;
  for (InName &n : W->names) if (n.agent == k && wantsMore(n)) { InName *p = &n; f.push_back([p] { sendNext(*p); }); f.push_back([p] { sendNext(*p); }); }
  for (Tele &t : W->teles)
    if (t.agent == k && (t.cur < t.top || (B->publishFaults && W->quiet))) {      // a lookup which failed left the state unknown
      Tele *p = &t;
      f.push_back([k, p] {
        p->cur += 1 + choose(2);
        if (p->cur > p->top) p->cur = p->top;
        event("agent %d publishes %s = %ld", k, p->state.c_str(), p->cur);
        publishAs(k, sequence(k, PlexilMsgType_TelemetryValues, choose(3) ? "" : ME, p->state, {intv(p->cur)}));
      });
    }
  if (!W->quiet) {
    if (choose(3) == 0) f.push_back([k] { noise(k); });
    for (size_t j = 0; j < W->exts.size(); ++j)
      f.push_back([k, j] {
        Ext &e = W->exts[j];
        uint32_t s;
        vector<Wire> ws = sequence(k, PlexilMsgType_LookupNow, choose(2) ? "" : ME, e.name, chance(1, 4) ? vector<Val>{strv("other")} : vector<Val>(), &s);
        W->asked[(long) s * 16 + k] = {(int) j, ws.size() > 1 ? -1 : e.done};
        if (ws.size() > 1 && e.counted) W->asked[(long) s * 16 + k].second = e.done;
        event("agent %d asks for %s", k, e.name.c_str());
        publishAs(k, ws);
      });
  }
  for (size_t j = 0; j < W->texts.size(); ++j) {
    Text &t = W->texts[j];
    if (t.sent || (int) ((t.after >= 0 ? t.after : j) % W->agents.size()) != k || (t.after >= 0 && !W->texts[t.after].sent)) continue;
    Text *p = &t;
    f.push_back([k, p] {
      p->sent = true;
      string s = p->xml;
      if (p->file) {
        p->fd = memfd_create("plan", 0);
        if (write(p->fd, s.data(), s.size()) != (ssize_t) s.size()) inconclusive("memfd");
        s = "/proc/self/fd/" + std::to_string(p->fd);
      }
      event("agent %d sends a %s%s", k, p->lib ? "library" : p->bad ? "damaged plan" : "plan", p->file ? " file" : "");
      publishAs(k, sequence(k, p->lib ? (p->file ? PlexilMsgType_AddLibraryFile : PlexilMsgType_AddLibrary) : (p->file ? PlexilMsgType_AddPlanFile : PlexilMsgType_AddPlan), choose(2) ? "" : ME, s, {}));
    });
  }
  if (!f.empty()) f[choose(f.size())]();
}
void agent(int k)
{
  while (!W->stopping) {
    Agent &a = W->agents[k];
    nanos next = now() + (nanos) (1 + choose(W->quiet ? 20 : 60)) * (choose(3) ? 10 * MS : 200 * US);
    waitUntil("agent", [k] { return W->stopping || !W->agents[k].in.empty(); }, next);
    if (W->stopping) break;
    if (a.in.empty()) { if (!W->over) for (unsigned i = 0, n = 1 + (choose(4) == 0 ? choose(4) : 0); i < n; ++i) spontaneous(k); continue; }
    Seq s = a.in.front();
    a.in.pop_front();
    agentTakes(k, s);
  }
}

// ------------------------------------------------------------------- the plans
string esc(string const &s) { string o; for (char c : s) if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += "&gt;"; else o += c; return o; }
string iv(long i) { return "<IntegerValue>" + std::to_string(i) + "</IntegerValue>"; }
string ivar(string const &n) { return "<IntegerVariable>" + n + "</IntegerVariable>"; }
string sval(string const &s) { return "<StringValue>" + esc(s) + "</StringValue>"; }
const char *ptype(Ty t) { return t == BOOL ? "Boolean" : t == INT ? "Integer" : t == REAL ? "Real" : "String"; }
string lit(Ty t, Val::Item const &it)
{
  char b[80];
  switch (t) {
  case BOOL: return string("<BooleanValue>") + (it.i ? "true" : "false") + "</BooleanValue>";
  case INT: return iv(it.i);
  case REAL: snprintf(b, sizeof b, "<RealValue>%.17g</RealValue>", it.d); return b;
  default: return sval(it.s);
  }
}
string decl(string const &n, Val const &p, bool init, unsigned room = 0)
{
  string s = p.arr ? "<DeclareArray><Name>" + n + "</Name><Type>" + ptype(p.t) + "</Type><MaxSize>" + std::to_string(room ? room : p.v.size()) + "</MaxSize>"
    : "<DeclareVariable><Name>" + n + "</Name><Type>" + ptype(p.t) + "</Type>";
  if (init && p.known) {
    s += "<InitialValue>";
    if (p.arr) s += string("<ArrayValue Type=\"") + ptype(p.t) + "\">";
    for (auto &i : p.v) s += lit(p.t, i);
    s += string(p.arr ? "</ArrayValue>" : "") + "</InitialValue>";
  }
  return s + (p.arr ? "</DeclareArray>" : "</DeclareVariable>");
}
string var(string const &n, Val const &p) { return p.arr ? "<ArrayVariable>" + n + "</ArrayVariable>" : string("<") + ptype(p.t) + "Variable>" + n + "</" + ptype(p.t) + "Variable>"; }
string known(string const &x) { return "<IsKnown>" + x + "</IsKnown>"; }
string tag(const char *t, string const &x) { return string("<") + t + ">" + x + "</" + t + ">"; }
string start(string const &x) { return tag("StartCondition", x); }
string finished(string const &id) { return "<EQInternal><NodeStateVariable><NodeId>" + id + "</NodeId></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>"; }
string handleIs(string const &id, const char *h) { return "<EQInternal><NodeCommandHandleVariable><NodeId>" + id + "</NodeId></NodeCommandHandleVariable><NodeCommandHandleValue>" + h + "</NodeCommandHandleValue></EQInternal>"; }
string outcomeIs(string const &id, const char *h) { return "<EQInternal><NodeOutcomeVariable><NodeId>" + id + "</NodeId></NodeOutcomeVariable><NodeOutcomeValue>" + h + "</NodeOutcomeValue></EQInternal>"; }
string lookup(string const &n, string const &args = "", const char *kind = "LookupOnChange") { return string("<") + kind + "><Name><StringValue>" + n + "</StringValue></Name>" + (args.empty() ? "" : "<Arguments>" + args + "</Arguments>") + "</" + kind + ">"; }
string assign(string const &id, string const &conds, string const &lhs, string const &rhs)
{
  return "<Node NodeType=\"Assignment\"><NodeId>" + id + "</NodeId>" + conds + "<NodeBody><Assignment>" + lhs + rhs + "</Assignment></NodeBody></Node>";
}
string command(string const &id, string const &conds, string const &name, string const &args, string const &ret = "")
{
  return "<Node NodeType=\"Command\"><NodeId>" + id + "</NodeId>" + conds + "<NodeBody><Command>" + ret +
    "<Name><StringValue>" + esc(name) + "</StringValue></Name>" + (args.empty() ? "" : "<Arguments>" + args + "</Arguments>") + "</Command></NodeBody></Node>";
}
string list(string const &id, string const &conds, string const &decls, string const &kids)
{
  return "<Node NodeType=\"NodeList\"><NodeId>" + id + "</NodeId>" + conds + (decls.empty() ? "" : "<VariableDeclarations>" + decls + "</VariableDeclarations>") +
    "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node>";
}
string numRHS(string const &x) { return "<NumericRHS>" + x + "</NumericRHS>"; }
string lookupRHS(Val const &p, string const &x) { return p.arr ? "<ArrayRHS>" + x + "</ArrayRHS>" : p.t == BOOL ? "<BooleanRHS>" + x + "</BooleanRHS>" : p.t == STR ? "<StringRHS>" + x + "</StringRHS>" : numRHS(x); }
string failedHandle(string const &id) { return "<OR>" + handleIs(id, "COMMAND_FAILED") + handleIs(id, "COMMAND_INTERFACE_ERROR") + handleIs(id, "COMMAND_DENIED") + "</OR>"; }
string counter(string const &n = "i") { return "<DeclareVariable><Name>" + n + "</Name><Type>Integer</Type><InitialValue>" + iv(0) + "</InitialValue></DeclareVariable>"; }
// kids executed n times; the last of them must set i to i + 1
string loop(string const &id, unsigned n, string const &decls, string const &kids)
{
  string more = "<LT>" + ivar("i") + iv(n) + "</LT>";
  string done = command(id + "z", start(finished(id + "l")), "part", iv(0));
  return list(id, "", counter(), list(id + "l", start(more) + tag("SkipCondition", "<GE>" + ivar("i") + iv(n) + "</GE>") + tag("RepeatCondition", more), decls, kids) + done);
}
string step(string const &id, string const &conds) { return assign(id, conds, ivar("i"), numRHS("<ADD>" + ivar("i") + iv(1) + "</ADD>")); }
string maybeExit(bool yes) { return yes ? tag("ExitCondition", "<GT>" + lookup("epoch") + "<ADD>" + ivar("e") + iv(choose(3)) + "</ADD></GT>") : string(); }
string epochDecl() { return "<DeclareVariable><Name>e</Name><Type>Integer</Type></DeclareVariable>"; }
string skipIf(string const &x) { return tag("SkipCondition", x); }

string receiver(int k, int r)
{
  InName &m = W->names[k];
  string R = "R" + std::to_string(k) + "x" + std::to_string(r), h = "<StringVariable>h</StringVariable>";
  string noH = "<NOT>" + known(h) + "</NOT>", kids = assign(R + "a", "", ivar("e"), numRHS(lookup("epoch")));
  kids += command(R + "r", start(finished(R + "a")) + maybeExit(W->aborting && (r == 0 || choose(2))) + tag("EndCondition", known(h)), m.msg ? "ReceiveMessage" : "ReceiveCommand", sval(m.name), h);
  string skip = skipIf("<AND>" + finished(R + "r") + noH + "</AND>"), decls = epochDecl() + decl("h", strv(""), false), args = iv(k) + iv(r) + h, prev = R + "r", all;
  bool seqd = choose(2);
  for (size_t p = 0; p < m.proto.size(); ++p) {
    string v = "v" + std::to_string(p), id = R + "p" + std::to_string(p);
    Val const &q = m.proto[p];
    decls += decl(v, q, false);
    string done = q.arr ? known("<ArrayElement><Name>" + v + "</Name><Index>" + iv(q.v.size() - 1) + "</Index></ArrayElement>") : known(var(v, q));
    kids += command(id, skipIf("<AND>" + finished(prev) + noH + "</AND>") + start("<AND>" + finished(prev) + known(h) + "</AND>") + tag("EndCondition", done), "GetParameter", h + (p || choose(2) ? iv(p) : string()), var(v, q));
    args += var(v, q);
    all += finished(id);
    if (seqd) prev = id;
  }
  string ready = m.proto.empty() ? finished(R + "r") : "<AND>" + all + known(h) + "</AND>";
  kids += command(R + "g", skip + start("<AND>" + ready + known(h) + "</AND>"), "got", args);
  string last = R + "g";
  if (!m.msg) {
    kids += command(R + "s", skipIf("<AND>" + finished(R + "g") + noH + "</AND>") + start("<AND>" + finished(R + "g") + known(h) + "</AND>"), "SendReturnValue", h + (m.proto.empty() ? iv(7) : var("v0", m.proto[0])));
    kids += command(R + "t", skipIf("<AND>" + finished(R + "s") + noH + "</AND>") + start("<AND>" + finished(R + "s") + known(h) + "</AND>"), "replied", iv(k) + h + handleIs(R + "s", "COMMAND_SUCCESS"));
    last = R + "t";
  }
  kids += step(R + "i", skipIf("<AND>" + finished(last) + noH + "</AND>") + start("<AND>" + finished(last) + known(h) + "</AND>"));
  return loop(R, m.want / m.receivers + (r < (int) (m.want % m.receivers)), decls, kids);
}
string commander(int id, unsigned n)
{
  CmdSpec &c = W->cmds[id];
  string S = "C" + std::to_string(id), num = "<ADD>" + iv((long) id * 1000) + ivar("i") + "</ADD>";
  string decls = epochDecl() + (c.ret ? decl("ret", c.proto, false) : ""), args = num, kids = assign(S + "a", "", ivar("e"), numRHS(lookup("epoch")));
  for (size_t p = 0; p < c.args.size(); ++p) {
    string v = "v" + std::to_string(p);
    if (c.args[p].arr || !c.args[p].known || choose(2)) { decls += decl(v, c.args[p], true); args += var(v, c.args[p]); }
    else args += lit(c.args[p].t, c.args[p].v[0]);
  }
  string back = !c.ret ? handleIs(S + "c", "COMMAND_SENT_TO_SYSTEM") : c.proto.arr ? known("<ArrayElement><Name>ret</Name><Index>" + iv(c.proto.v.size() - 1) + "</Index></ArrayElement>") : known(var("ret", c.proto));
  kids += command(S + "c", start(finished(S + "a")) + maybeExit(W->aborting && choose(2)) + tag("EndCondition", back), (c.dest.empty() ? "" : c.dest + ":") + c.name, args, c.ret ? var("ret", c.proto) : "");
  kids += command(S + "d", start(finished(S + "c")), "done", iv(id) + ivar("i") + outcomeIs(S + "c", "SUCCESS") + failedHandle(S + "c") + (c.ret ? var("ret", c.proto) : ""));
  kids += step(S + "i", start(finished(S + "d")));
  return loop(S, n, decls, kids);
}
string messenger(int id, unsigned n)
{
  string S = "M" + std::to_string(id);
  string kids;
  // one text per part, the number of the iteration chooses among a few
  kids += command(S + "c", "", "SendMessage", "<Concat>" + sval("m" + std::to_string(id) + "_") + "<StringVariable>x</StringVariable></Concat>");
  kids += command(S + "d", start(finished(S + "c")), "sent", iv(id) + "<StringVariable>x</StringVariable>" + handleIs(S + "c", "COMMAND_SUCCESS"));
  kids += assign(S + "x", start(finished(S + "d")), "<StringVariable>x</StringVariable>", "<StringRHS><Concat><StringVariable>x</StringVariable>" + sval("+") + "</Concat></StringRHS>");
  kids += step(S + "i", start(finished(S + "x")));
  string l = loop(S, n, "", kids);
  // x lives outside of the loop
  return list(S + "o", "", "<DeclareVariable><Name>x</Name><Type>String</Type><InitialValue>" + sval("") + "</InitialValue></DeclareVariable>", l);
}
string updater(int id, unsigned n)
{
  UpdSpec &u = W->upds[id];
  string S = "U" + std::to_string(id), decls = epochDecl(), pairs, kids = assign(S + "a", "", ivar("e"), numRHS(lookup("epoch")));
  pairs = "<Pair><Name>id</Name><ADD>" + iv((long) id * 1000) + ivar("i") + "</ADD></Pair>";
  unsigned np = choose(4);
  for (unsigned p = 0; p < np; ++p) {
    string nm = "p" + std::to_string(p);
    Val v = chance(1, 6) ? unknown() : anyValue();
    if (!v.known || v.arr || choose(2)) { decls += decl("v" + std::to_string(p), v, true); pairs += "<Pair><Name>" + nm + "</Name>" + var("v" + std::to_string(p), v) + "</Pair>"; }
    else pairs += "<Pair><Name>" + nm + "</Name>" + lit(v.t, v.v[0]) + "</Pair>";
    if (v.known && !v.arr) u.pairs[nm] = v;   // others cannot be expressed
  }
  bool none = chance(1, 4);       // and one with nothing to say
  if (none) kids += "<Node NodeType=\"Update\"><NodeId>" + S + "v</NodeId>" + start(finished(S + "a")) + "<NodeBody><Update></Update></NodeBody></Node>";
  kids += "<Node NodeType=\"Update\"><NodeId>" + S + "u</NodeId>" + start(finished(S + (none ? "v" : "a"))) + "<NodeBody><Update>" + pairs + "</Update></NodeBody></Node>";
  kids += command(S + "d", start(finished(S + "u")), "updated", iv(id) + ivar("i") + outcomeIs(S + "u", "SUCCESS"));
  kids += step(S + "i", start(finished(S + "d")));
  return loop(S, n, decls, kids);
}
string asker(int id, unsigned n)
{
  LkSpec &l = W->lks[id];
  string S = "L" + std::to_string(id), decls = decl("v", l.proto, false), args;
  if (!l.counter) {
    args = "<ADD>" + iv((long) id * 1000) + ivar("i") + "</ADD>";
    for (size_t p = 0; p < l.args.size(); ++p) {
      string v = "w" + std::to_string(p);
      if (l.args[p].arr || choose(2)) { decls += decl(v, l.args[p], true); args += var(v, l.args[p]); } else args += lit(l.args[p].t, l.args[p].v[0]);
    }
  }
  string kids = assign(S + "a", "", var("v", l.proto), lookupRHS(l.proto, lookup((l.dest.empty() ? "" : l.dest + ":") + l.state, args, "LookupNow")));
  kids += command(S + "d", start(finished(S + "a")), "looked", iv(id) + ivar("i") + var("v", l.proto));
  kids += step(S + "i", start(finished(S + "d")));
  return loop(S, n, decls, kids);
}
string watcher(int id)
{
  Tele &t = W->teles[id];
  static unsigned nth = 0;
  string S = "T" + std::to_string(id) + "x" + std::to_string(nth++), kids, prev;
  vector<long> at;
  for (long v = 1 + choose(3); v < t.top; v += 1 + choose(4)) at.push_back(v);
  at.push_back(t.top);
  for (size_t j = 0; j < at.size(); ++j) {
    string I = S + "n" + std::to_string(j), cond = string(at[j] == t.top && choose(2) ? "<EQNumeric>" : "<GE>") + lookup(t.state) + iv(at[j]);
    cond += cond[1] == 'E' ? "</EQNumeric>" : "</GE>";
    kids += command(I, start(prev.empty() ? cond : "<AND>" + finished(prev) + cond + "</AND>"), "saw", iv(id) + iv(at[j]));
    prev = I;
  }
  kids += command(S + "z", start(finished(prev)), "part", iv(0));
  return list(S, "", "", kids);
}
string external(int id, unsigned n)
{
  Ext &e = W->exts[id];
  string S = "E" + std::to_string(id), kids, v = ivar("v");
  if (!e.counted) {   // never set: the default
    kids = assign(S + "a", "", var("v", e.def), lookupRHS(e.def, lookup(e.name, choose(3) ? "" : sval("some"), "LookupNow")));
    kids += command(S + "d", start(finished(S + "a")), "deflt", iv(id) + var("v", e.def));
    kids += step(S + "i", start(finished(S + "d")));
    return loop(S, n, decl("v", e.def, false), kids);
  }
  kids = command(S + "u", "", "UpdateLookup", sval(e.name) + ivar("i"));
  kids += command(S + "e", start(finished(S + "u")), "setx", iv(id) + ivar("i") + handleIs(S + "u", "COMMAND_SUCCESS"));
  string cond;
  bool wait = choose(2);
  if (wait) cond = "<EQNumeric>" + lookup(e.name) + ivar("i") + "</EQNumeric>";
  kids += assign(S + "a", start(wait ? "<AND>" + finished(S + "e") + cond + "</AND>" : finished(S + "e")), v, numRHS(lookup(e.name, "", "LookupNow")));
  kids += command(S + "d", start(finished(S + "a")), "ext", iv(id) + ivar("i") + v);
  kids += step(S + "i", start(finished(S + "d")));
  return loop(S, n, "<DeclareVariable><Name>v</Name><Type>Integer</Type></DeclareVariable>", kids);
}
unsigned s_bad;
string misuser()
{
  string S = "B" + std::to_string(s_bad++), kids, prev, decls = "<DeclareVariable><Name>us</Name><Type>String</Type></DeclareVariable>" + decl("ua", value(INT, 1), true, 6);
  unsigned n = 1 + choose(4);
  for (unsigned i = 0; i < n; ++i) {
    static const char *const C[] = {"SendMessage", "ReceiveMessage", "ReceiveCommand", "GetParameter", "SendReturnValue", "UpdateLookup"};
    string I = S + "n" + std::to_string(i), us = "<StringVariable>us</StringVariable>", args, name;
    unsigned c = choose(8);
    if (c == 6) { name = "nobody:work"; args = iv(1); }
    else if (c == 7) { name = "work"; args = "<ArrayVariable>ua</ArrayVariable>"; }
    else {
      name = C[c];
      switch (c) {
      case 0: case 1: case 2: { const string A[] = {iv(3), us, "", sval("a") + sval("b")}; args = A[choose(4)]; break; }
      case 3: { const string A[] = {iv(3), us, "", sval("1:agent0") + sval("b"), sval("1:agent0") + iv(-1), sval("a") + iv(1) + iv(1)}; args = A[choose(6)]; break; }
      case 4: { const string A[] = {iv(3) + iv(1), us + iv(1), "", sval("nothing") + iv(1), sval("1:nobody") + iv(1), sval("1:agent0"), sval(":") + iv(1), sval("") + iv(1)}; args = A[choose(8)]; break; }
      default: { const string A[] = {iv(3) + iv(1), us + iv(1), "", sval("undeclared") + iv(1), sval("x0")}; args = A[choose(5)]; }
      }
    }
    kids += command(I, prev.empty() ? "" : start(finished(prev)), name, args);
    kids += command(I + "d", start(finished(I)), "misused", sval(name + " " + std::to_string(c)) + failedHandle(I));
    prev = I + "d";
  }
  kids += command(S + "z", start(finished(prev)), "part", iv(0));
  return list(S, "", decls, kids);
}
string globals()
{
  string s = "<GlobalDeclarations>";
  auto state = [&s](string const &n, Val const &p) {
    s += "<StateDeclaration><Name>" + n + "</Name><Return><Name>r</Name><Type>" + ptype(p.t) + "</Type>" + (p.arr ? "<MaxSize>" + std::to_string(p.v.size()) + "</MaxSize>" : "") + "</Return></StateDeclaration>";
  };
  state("epoch", intv(0));
  s += "<StateDeclaration><Name>over</Name><Return><Name>r</Name><Type>Boolean</Type></Return></StateDeclaration>";
  for (Tele &t : W->teles) state(t.state, intv(0));
  for (Ext &e : W->exts) if (e.counted) state(e.name, intv(0));
  return s + "</GlobalDeclarations>";
}
string wrap(string const &node) { return "<PlexilPlan>" + globals() + node + "</PlexilPlan>"; }

// ------------------------------------------------------------------ the oracle
long intOf(P::Value const &v) { P::Integer i = -999999; v.getValue(i); return i; }
string strOf(P::Value const &v) { P::String const *s = nullptr; v.getValuePointer(s); return s ? *s : "?"; }
bool boolOf(P::Value const &v) { bool b = false; v.getValue(b); return b; }
void got(vector<P::Value> const &a)
{
  int k = intOf(a[0]), r = intOf(a[1]);
  InName &m = W->names[k];
  string h = strOf(a[2]);
  ++m.got;
  nontrivial();
  event("got %s receiver %d: %s", m.name.c_str(), r, h.c_str());
  if (m.msg) {
    if (h != m.name) violation("message-wrong", "a plan waiting for the message '" + m.name + "' got '" + h + "'");
    if (m.got > m.sent) violation("message-invented", "the message '" + m.name + "' was received " + std::to_string(m.got) + " times and sent " + std::to_string(m.sent) + " times");
    return;
  }
  vector<Val> row;
  for (size_t p = 0; p < m.proto.size(); ++p) row.push_back(fromValue(a[3 + p]));
  long from = m.last.count(r) ? m.last[r] + 1 : 0, hit = -1;
  for (size_t j = 0; j < m.cmds.size(); ++j)
    if (h == std::to_string(m.cmds[j].serial) + ":" + m.cmds[j].uid) {
      InCmd &c = m.cmds[j];
      if (c.got) violation("command-received-twice", "a plan received the command " + m.name + " number " + std::to_string(j) + " a second time");
      if (c.args.size() != row.size()) violation("harness", "parameters");
      for (size_t p = 0; p < row.size(); ++p)
        if (!same(row[p], c.args[p])) violation("parameter-wrong", "parameter " + std::to_string(p) + " of the received command " + m.name + " is " + show(c.args[p]) + " and came out as " + show(row[p]));
      c.got = true;
      hit = j;
    }
  if (hit < 0) violation("command-invented", "a plan received the command " + m.name + " with the handle " + h + ", which nobody sent");
  if (hit < from) violation("command-order", "a receiver got the command " + m.name + " number " + std::to_string(hit) + " after number " + std::to_string(from - 1));
  m.last[r] = hit;
}
void execute(P::Command *cmd, P::AdapterExecInterface *f)
{
  string n = cmd->getName();
  vector<P::Value> const &a = cmd->getArgValues();
  if (n == "got") got(a);
  else if (n == "part") { --W->partsLeft; event("part done, %u left", W->partsLeft); }
  else if (n == "sent") {
    string text = "m" + std::to_string(intOf(a[0])) + "_" + strOf(a[1]);
    bool ok = boolOf(a[2]);
    unsigned c = 0;
    for (auto &m : W->outMsgs) if (m.first == text) ++c;
    event("sent %s: %d", text.c_str(), ok);
    nontrivial();
    if (ok && c == 0) violation("message-not-sent", "SendMessage('" + text + "') is reported as a success but nothing left");
    if (c > 1) violation("message-sent-twice", "SendMessage('" + text + "') was published " + std::to_string(c) + " times");
    if (!ok && c) violation("message-false-failure", "SendMessage('" + text + "') is reported as failed but it left");
    if (!ok && !B->publishFaults) violation("message-failed", "SendMessage('" + text + "') failed although nothing went wrong");
  }
  else if (n == "done") {
    CmdSpec &c = W->cmds[intOf(a[0])];
    long i = intOf(a[1]);
    bool ok = boolOf(a[2]), failed = boolOf(a[3]);
    event("command %s %ld ended: %s", c.name.c_str(), i, ok ? "ok" : failed ? "failed" : "aborted");
    nontrivial();
    if (failed) {
      if (c.seen.count(i)) violation("command-false-failure", "the command " + c.name + " is reported as failed but it left");
      if (!B->publishFaults) violation("command-failed", "the command " + c.name + " failed although nothing went wrong");
    }
    else if (ok) {
      if (!c.seen.count(i)) violation("command-not-sent", "the command " + c.name + " is reported as sent but it did not leave");
      if (c.ret) {
        Val v = fromValue(a[4]);
        if (c.self) { if (!same(v, intv((long) (&c - &W->cmds[0]) * 1000 + i))) violation("return-wrong", "the command " + c.name + " to the executive itself, execution " + std::to_string(i) + ", got " + show(v)); }
        else if (!c.rep.count(i)) violation("return-invented", "execution " + std::to_string(i) + " of the command " + c.name + " got the return value " + show(v) + " before it was answered");
        else if (!same(v, c.rep[i].v)) violation("return-wrong", "execution " + std::to_string(i) + " of the command " + c.name + " was answered with " + show(c.rep[i].v) + " and got " + show(v));
      }
    }
    else if (!W->aborting) violation("command-aborted", "the command " + c.name + " ended without success or failure");
  }
  else if (n == "replied") {
    InName &m = W->names[intOf(a[0])];
    if (!boolOf(a[2]) && !B->publishFaults) violation("return-failed", "SendReturnValue for " + m.name + " failed although nothing went wrong");
  }
  else if (n == "updated") {
    UpdSpec &u = W->upds[intOf(a[0])];
    if (boolOf(a[2])) { if (u.seen[intOf(a[1])] != 1) violation("update-not-sent", "a planner update is acknowledged but did not leave"); nontrivial(); }
    else if (!W->aborting && !B->failPublish) violation("update-failed", "a planner update failed although nothing went wrong");
  }
  else if (n == "looked") {
    LkSpec &l = W->lks[intOf(a[0])];
    long id = intOf(a[0]), i = intOf(a[1]);
    Val v = fromValue(a[2]);
    event("looked up %s %ld: %s", l.state.c_str(), i, show(v).c_str());
    nontrivial();
    if (!v.known && B->publishFaults) ;
    else if (l.counter) {
      if (!v.known || v.t != INT || !l.rep.count(v.v[0].i)) violation("lookup-invented", "the lookup of " + l.state + " gave " + show(v) + ", which nobody answered");
      // an update of the state may answer any lookup of it
      if (v.v[0].i <= l.last[id] && !l.again.count(v.v[0].i)) violation("lookup-old", "the lookup of " + l.state + " gave " + show(v) + " again, the answer to an earlier one");
      l.last[id] = v.v[0].i;
    }
    else if (!l.rep.count(id * 1000 + i)) violation("lookup-invented", "the lookup of " + l.state + " number " + std::to_string(i) + " gave " + show(v) + " before it was answered");
    else if (!same(v, l.rep[id * 1000 + i])) violation("lookup-wrong", "the lookup of " + l.state + " number " + std::to_string(i) + " was answered with " + show(l.rep[id * 1000 + i]) + " and gave " + show(v));
  }
  else if (n == "saw") {
    Tele &t = W->teles[intOf(a[0])];
    event("saw %s reach %ld", t.state.c_str(), intOf(a[1]));
    nontrivial();
    if (t.cur < intOf(a[1])) violation("telemetry-invented", "a plan saw " + t.state + " reach " + std::to_string(intOf(a[1])) + " while its value is " + std::to_string(t.cur));
  }
  else if (n == "setx") {
    Ext &e = W->exts[intOf(a[0])];
    e.done = e.last = intOf(a[1]);
    if (!boolOf(a[2]) && !B->publishFaults) violation("external-failed", "UpdateLookup(" + e.name + ") failed although nothing went wrong");
  }
  else if (n == "ext") {
    Ext &e = W->exts[intOf(a[0])];
    Val v = fromValue(a[2]);
    nontrivial();
    if (!same(v, intv(intOf(a[1])))) violation("external-wrong", "a plan set " + e.name + " to " + std::to_string(intOf(a[1])) + " and then looked up " + show(v));
  }
  else if (n == "deflt") {
    Ext &e = W->exts[intOf(a[0])];
    Val v = fromValue(a[1]);
    nontrivial();
    if (!(!v.known && B->publishFaults) && !same(v, e.def)) violation("external-wrong", "the declared value of " + e.name + " is " + show(e.def) + " and a plan looked up " + show(v));
  }
  else if (n == "misused") {
    event("misused %s: %d", strOf(a[0]).c_str(), boolOf(a[1]));
    count("probe.misuse");
    if (!boolOf(a[1])) violation("misuse-accepted", "the misused command " + strOf(a[0]) + " is not reported as failed");
  }
  else if (n == "ran") {
    Text &t = W->texts[intOf(a[0])];
    nontrivial();
    event("plan text %ld ran", intOf(a[0]));
    if (++t.ran > 1 || !t.sent) violation("plan-twice", "a plan sent over the bus ran twice");
    --W->partsLeft;
  }
  f->handleCommandAck(cmd, P::COMMAND_SUCCESS);
  f->notifyOfExternalEvent();
}
struct SimAdapter final : P::InterfaceAdapter {
  SimAdapter(P::AdapterExecInterface &i, P::AdapterConf *c) : P::InterfaceAdapter(i, c) { W->intf = &i; }
  bool initialize(P::AdapterConfiguration *c) override
  {
    for (const char *n : {"got", "sent", "done", "replied", "updated", "looked", "saw", "setx", "ext", "deflt", "misused", "part", "ran"})
      c->registerCommandHandlerFunction(n, [](P::Command *cmd, P::AdapterExecInterface *f) { execute(cmd, f); });
    c->registerLookupHandlerFunction("epoch", [](P::State const &, P::LookupReceiver *r) { r->update((P::Integer) W->epoch); });
    c->registerLookupHandlerFunction("over", [](P::State const &, P::LookupReceiver *r) { r->update(W->over); });
    return true;
  }
  bool start() override { return true; }
  void stop() override {}
};
struct Tap final : P::ExecListenerBase {
  P::ExecListenerBase *hub;
  void notifyOfTransitions(vector<P::NodeTransition> const &ts) override
  {
    for (auto &t : ts) {
      string const &id = t.node->getNodeId();
      event("%s -> %s", id.c_str(), P::nodeStateName(t.newState).c_str());
      if (!t.node->getParent() && t.newState == P::FINISHED_STATE) --W->plansLeft;
      if (t.newState == P::FAILING_STATE && t.node->getType() == P::NodeType_Command) { ++W->aborts; count("probe.abort"); }
    }
    hub->notifyOfTransitions(ts);
  }
  void notifyOfAssignment(P::Expression const *d, string const &n, P::Value const &v) override { hub->notifyOfAssignment(d, n, v); }
  void stepComplete(unsigned c) override { hub->stepComplete(c); }
};
Tap s_tap;
void epochs()
{
  while (!W->stopping && !W->over) {
    sleepFor((nanos) (1 + choose(20)) * 50 * MS);
    if (W->stopping || W->over) break;
    ++W->epoch;
    if (W->quiet && choose(4)) continue;
    event("epoch %u", W->epoch);
    W->intf->handleValueChange(P::State("epoch", 0), P::Value((P::Integer) W->epoch));
    W->intf->notifyOfExternalEvent();
  }
}
string litAttr(Val const &v)
{
  string s;
  auto one = [&](Val::Item const &it) {
    char b[60];
    if (v.t == STR) { string o; for (char c : it.s) o += c == '"' ? string("&quot;") : esc(string(1, c)); return v.arr ? "&quot;" + o + "&quot;" : o; }
    if (v.t == REAL) { snprintf(b, sizeof b, "%.17g", it.d); return string(b); }
    return v.t == BOOL ? string(it.i ? "true" : "false") : std::to_string(it.i);
  };
  for (auto &it : v.v) s += (s.empty() ? "" : v.t == STR ? "," : choose(2) ? ", " : ",") + one(it);
  return s;
}

void deployed()
{
  H h;
  W = &h;
  Bus b;
  B = &b;
  bool lookups = string(sim::profile) == "lookup";
  if (choose(2)) params.memPreempt = 0;
  if (chance(1, 3)) { params.stallMean = 400; params.stallMax = (1 + choose(6)) * 60 * MS; }
  progressLimit(2500000);
  h.aborting = chance(1, 4);
  h.dup = lookups || choose(4);
  b.maxDelay = choose(3) ? (nanos) (1 + choose(50)) * (choose(2) ? MS : 20 * US) : 0;
  b.failPublish = chance(1, 4) ? 4 + choose(12) : 0;
  unsigned na = 1 + choose(3);
  for (unsigned k = 0; k < na; ++k) h.agents.push_back(Agent{"agent" + std::to_string(k)});
  b.onPublish = published;
  b.onFailed = refused;
  b.self = ME;
  for (Agent &a : h.agents) {
    for (auto &f : {std::make_pair(MSG_BASE, MSG_BASE_FORMAT), std::make_pair(RETURN_VALUE_MSG, RETURN_VALUE_MSG_FORMAT), std::make_pair(BOOLEAN_VALUE_MSG, BOOLEAN_VALUE_MSG_FORMAT),
                    std::make_pair(INTEGER_VALUE_MSG, INTEGER_VALUE_MSG_FORMAT), std::make_pair(REAL_VALUE_MSG, REAL_VALUE_MSG_FORMAT), std::make_pair(STRING_VALUE_MSG, STRING_VALUE_MSG_FORMAT),
                    std::make_pair(BOOLEAN_ARRAY_MSG, BOOLEAN_ARRAY_MSG_FORMAT), std::make_pair(INTEGER_ARRAY_MSG, INTEGER_ARRAY_MSG_FORMAT), std::make_pair(REAL_ARRAY_MSG, REAL_ARRAY_MSG_FORMAT),
                    std::make_pair(STRING_ARRAY_MSG, STRING_ARRAY_MSG_FORMAT)})
      b.defs[a.uid + f.first] = parseFormat(f.second);
  }

  // ---- who does what
  vector<string> parts;
  unsigned np = 1 + choose(4);
  for (unsigned p = 0; p < np; ++p) {
    unsigned n = 1 + choose(5);
    switch (lookups ? 6 + weighted({4, 3, 3}) : weighted({3, 3, 4, 2, 2, 1})) {
    case 0: case 1: {    // something comes in
      InName m;
      m.msg = choose(2);
      m.agent = choose(na);
      m.name = string(m.msg ? "note" : "task") + std::to_string(h.names.size());
      m.want = n;
      m.receivers = n > 1 && chance(1, 3) ? 2 : 1;
      if (!m.msg) for (unsigned q = choose(4); q > 0; --q) m.proto.push_back(anyValue());
      int k = h.names.size();
      h.names.push_back(m);
      for (unsigned r = 0; r < m.receivers; ++r) parts.push_back(receiver(k, r));
      break;
    }
    case 2: {            // a command goes out
      CmdSpec c;
      c.name = "do" + std::to_string(h.cmds.size());
      c.ret = choose(3);
      c.self = c.ret && !h.aborting && h.dup && !b.failPublish && chance(1, 5);
      c.dest = c.self ? "" : chance(1, 3) ? h.agents[choose(na)].uid : "";
      c.proto = c.self ? intv(0) : anyValue();
      for (unsigned q = choose(4); q > 0; --q) c.args.push_back(c.self ? anyValue() : chance(1, 8) ? unknown() : anyValue());
      int id = h.cmds.size();
      h.cmds.push_back(c);
      if (c.self) {
        InName m;
        m.agent = -1;
        m.name = c.name;
        m.want = n;
        m.proto.push_back(intv(0));
        for (Val &v : c.args) m.proto.push_back(v);
        int k = h.names.size();
        h.names.push_back(m);
        parts.push_back(receiver(k, 0));
      }
      parts.push_back(commander(id, n));
      break;
    }
    case 3: parts.push_back(messenger(parts.size(), n)); break;
    case 4: h.upds.push_back(UpdSpec()); parts.push_back(updater(h.upds.size() - 1, n)); break;
    case 5: parts.push_back(misuser()); break;
    case 6: {
      LkSpec l;
      l.state = "s" + std::to_string(h.lks.size());
      l.dest = chance(1, 3) ? h.agents[choose(na)].uid : "";
      l.counter = choose(3) == 0;
      l.proto = l.counter ? intv(0) : anyValue();
      if (!l.counter) for (unsigned q = choose(3); q > 0; --q) l.args.push_back(anyValue());
      h.lks.push_back(l);
      parts.push_back(asker(h.lks.size() - 1, n));
      break;
    }
    case 7: {
      Tele t;
      t.state = "t" + std::to_string(h.teles.size());
      t.agent = choose(na);
      t.top = 2 + choose(8);
      h.teles.push_back(t);
      for (unsigned r = 1 + choose(2); r > 0; --r) parts.push_back(watcher(h.teles.size() - 1));
      break;
    }
    default: {
      Ext e;
      e.name = "x" + std::to_string(h.exts.size());
      e.counted = choose(3);
      e.def = e.counted ? intv(-1) : anyValue();
      if (e.def.arr) for (auto &it : e.def.v) for (char &ch : it.s) if (!isalnum((unsigned char) ch)) ch = 0x2e;      // the configuration has no way to quote characters
      h.exts.push_back(e);
      parts.push_back(external(h.exts.size() - 1, n));
    }
    }
  }
  h.teles.reserve(h.teles.size() + 1);
  h.partsLeft = parts.size();
  // plans over the bus
  if (!lookups && chance(1, 3)) {
    for (unsigned n = 1 + choose(3), i = 0; i < n; ++i) {
      Text t;
      t.file = choose(2);
      if (chance(1, 4)) {
        t.bad = true;
        static const char *const BAD[] = {"<PlexilPlan><Node", "<Foo/>", "<PlexilPlan><Node NodeType=\"Command\"><NodeId>q</NodeId></Node></PlexilPlan>", "", "<PlexilPlan/>", "<PlexilPlan><Node NodeType=\"Nope\"><NodeId>q</NodeId></Node></PlexilPlan>"};
        t.xml = BAD[choose(6)];
        t.lib = choose(3) == 0;
        h.texts.push_back(t);
        continue;
      }
      t.id = h.texts.size();
      string G = "G" + std::to_string(t.id);
      if (choose(2)) {
        Text l;
        l.lib = true;
        l.file = choose(2);
        l.xml = "<PlexilPlan>" + list("Lib" + G, "", "", command(G + "n", "", "ran", iv(t.id + 1))) + "</PlexilPlan>";
        h.texts.push_back(l);
        ++t.id;
        t.after = t.id - 1;
        t.xml = "<PlexilPlan>" + list(G, "", "", "<Node NodeType=\"LibraryNodeCall\"><NodeId>" + G + "c</NodeId><NodeBody><LibraryNodeCall><NodeId>Lib" + G + "</NodeId></LibraryNodeCall></NodeBody></Node>") + "</PlexilPlan>";
      }
      else t.xml = "<PlexilPlan>" + list(G, "", "", command(G + "n", "", "ran", iv(t.id))) + "</PlexilPlan>";
      ++h.partsLeft;
      ++h.plansLeft;
      h.texts.push_back(t);
    }
    // one agent sends a library and the plan which needs it
  }

  // ---- plans
  vector<std::pair<string, string>> plans;
  string barrier = "<Node NodeType=\"Empty\"><NodeId>zz</NodeId>" + start(lookup("over")) + "</Node>";
  if (choose(2)) { string all; for (string &s : parts) all += s; plans.push_back({"P0", wrap(list("P0", "", "", all + barrier))}); }
  else for (string &s : parts) { string id = "P" + std::to_string(plans.size()); plans.push_back({id, wrap(list(id, "", "", s + barrier))}); }
  h.plansLeft += plans.size();

  // ---- the application
  h.app.reset(P::makeExecApplication());
  P::registerSimAdapter();
  initIpcAdapter();
  std::ostringstream cfg;
  cfg << "<Interfaces><Adapter AdapterType=\"Time\"/><Adapter AdapterType=\"SimA\"/><Adapter AdapterType=\"IpcAdapter\" TaskName=\"" << ME << "\" AllowDuplicateMessages=\"" << (h.dup ? "true" : "false") << "\"";
  if (choose(2)) cfg << " Server=\"central\"";
  cfg << ">";
  if (choose(2)) cfg << "<DefaultAdapter/>";
  else {
    string cn = "work,nobody:work", ln;
    for (CmdSpec &c : h.cmds) cn += "," + (c.dest.empty() ? "" : c.dest + ":") + c.name;
    for (LkSpec &l : h.lks) ln += (ln.empty() ? "" : ",") + (l.dest.empty() ? "" : l.dest + ":") + l.state;
    for (Tele &t : h.teles) ln += (ln.empty() ? "" : ",") + t.state;
    cfg << "<CommandNames>" << cn << "</CommandNames>";
    if (!ln.empty()) cfg << "<LookupNames>" << ln << "</LookupNames>";
    cfg << "<PlannerUpdate/>";
  }
  if (!h.exts.empty()) {
    cfg << "<ExternalLookups>";
    for (Ext &e : h.exts) cfg << "<Lookup name=\"" << e.name << "\" type=\"" << ptype(e.def.t) << (e.def.arr ? "Array" : "") << "\" value=\"" << litAttr(e.def) << "\"/>";
    cfg << "</ExternalLookups>";
  }
  cfg << "</Adapter></Interfaces>";
  static pugi::xml_document doc;
  if (doc.load_string(cfg.str().c_str()).status != pugi::status_ok) inconclusive("harness: configuration");
  event("%s", cfg.str().c_str());
  if (!h.app->initialize(doc.document_element())) violation("config-refused", "the configuration was refused: " + cfg.str());
  s_tap.hub = h.app->listenerHub();
  h.app->exec()->setExecListener(&s_tap);
  bool down = chance(1, 30);
  if (down) b.failConnect = 1;
  if (!h.app->startInterfaces()) {
    if (!down) violation("start-failed", "the interfaces did not start although the server can be reached");
    h.app.reset();
    finish();
  }
  if (down) violation("start-succeeded", "the interfaces are reported as started although the server cannot be reached");
  if (!h.app->run()) inconclusive("run");
  for (unsigned k = 0; k < na; ++k) spawn("agent" + std::to_string(k), [k] { agent(k); });
  spawn("epochs", [] { epochs(); });
  for (auto &p : plans) {
    pugi::xml_document d;
    if (d.load_string(p.second.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) inconclusive("harness: plan XML");
    event("addPlan %s", p.first.c_str());
    trace(p.second);
    if (!h.app->addPlan(&d)) violation("plan-rejected", "addPlan refused a valid plan");
    h.app->notifyExec();
    if (choose(2)) sleepFor((nanos) choose(50) * 5 * MS);
  }
  auto progress = [&h] { return h.partsLeft <= h.updLost; };
  if (chance(1, 8)) waitUntil("some progress", progress, now() + (nanos) (1 + choose(50)) * 20 * MS);
  else {
    waitUntil("the end of the faults", progress, now() + (nanos) (1 + choose(30)) * 200 * MS);
    event("faults end");
    h.quiet = true;
    unsigned fp = b.failPublish;
    if (fp) b.failPublish = 1u << 30;
    if (waitUntil("the end of all parts", progress, now() + 120 * SEC)) {
      string s;
      for (InName &m : h.names) if (m.got < m.want) s += " " + m.name + ": " + std::to_string(m.got) + " of " + std::to_string(m.want) + " received, " + std::to_string(m.sent) + " sent;";
      for (Text &t : h.texts) if (t.id >= 0 && !t.ran) s += " a plan sent over the bus did not run;";
      violation("no-progress", "the plans did not end within 120 s after the last fault; " + std::to_string(h.partsLeft) + " parts are left;" + s + " threads: " + threadDump());
    }
    // nothing more may come for nodes which are about to go
    h.over = true;
    waitUntil("the bus to be idle", [&h] { for (Agent &a : h.agents) if (!a.in.empty()) return false; return h.deferred == 0 && bus::idle(); }, now() + 60 * SEC);
    waitIdle(now() + 200 * MS);
    if (!bus::idle() || h.deferred) inconclusive("bus busy");
    if (!b.publishFaults && !h.asked.empty()) violation("external-unanswered", "an agent asked for " + h.exts[h.asked.begin()->second.first].name + " and got no answer");
    if (!b.publishFaults)
      for (InName &m : h.names)
        for (InCmd &c : m.cmds) if (m.agent >= 0 && c.got && !c.replied) violation("return-lost", "the return value of a command " + m.name + " did not reach its sender");
    event("over");
    h.intf->handleValueChange(P::State("over", 0), P::Value(true));
    h.intf->notifyOfExternalEvent();
    if (!h.updLost && waitUntil("the end of all plans", [&h] { return h.plansLeft == 0; }, now() + 60 * SEC)) violation("no-progress", "the plans did not end although all of their parts did");
  }
  event("stop");
  h.over = true;       // lookups are still answered: nobody can stop a thread which waits for one
  h.app->stop();
  h.stopping = true;
  event("stopped");
  waitIdle(now() + 3 * SEC);
  uint64_t before = b.published;
  h.app.reset();
  waitIdle(now() + 1 * SEC);
  event("destroyed");
  if (b.connected) violation("still-connected", "the connection is open after the application was stopped and destroyed");
  for (Text &t : h.texts) if (t.fd >= 0) close(t.fd);
  simtime((double) (now() - 1000 * SEC) / 1e9);
  cover(scheduleHash());
  finish();
}
} // namespace
namespace PLEXIL { void registerSimAdapter() { REGISTER_ADAPTER(SimAdapter, "SimA"); } }
int main(int argc, char **argv) { return sim::runnerMain(argc, argv, "ipc", [] {
  sim::start();
  deployed();
}); }
