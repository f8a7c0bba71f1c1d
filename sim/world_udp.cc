// W4: the real UdpAdapter (messages in and out of plans) inside the real
// application, over simulated sockets, pipes and name resolution.
#include "simnet.hh"

#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "AdapterFactory.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "ExecApplication.hh"
#include "ExecListenerHub.hh"
#include "InterfaceAdapter.hh"
#include "InterfaceManager.hh"
#include "LookupReceiver.hh"
#include "Node.hh"
#include "NodeTransition.hh"
#include "PlexilExec.hh"
#include "State.hh"
#include "NodeConstants.hh"
#include "pugixml.hpp"

#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <vector>

namespace P = PLEXIL;
namespace PLEXIL { void registerSimAdapter(); }
extern "C" void initUdpAdapter();
using namespace sim;
using std::string;
using std::vector;

namespace {
enum Ty { BOOL, INT, FLT, STR };
const char *const TYN[] = {"bool", "int", "float", "string"};
struct Par { Ty t; unsigned bytes = 4, n = 0; }; // n: elements of an array, 0: scalar
struct Item { long i = 0; float f = 0; string s; bool huge = false; };
typedef vector<Item> Val;                         // one item, or the elements
typedef vector<Val> Row;                          // the values of all parameters
struct Arr { Row row; bool whole = true, mayDrop = false, used = false; };
struct Msg {
  string name;
  vector<Par> par;
  int local = 0, peer = 0;
  string host;
  uint32_t ip = 0;
  unsigned len = 0;
  bool ownPort = true;          // nobody else receives on the local port
  // receiving
  unsigned want = 0, receivers = 0, got = 0, lossAllowed = 0;
  vector<Arr> arr;              // what a socket of ours took, in order
  std::map<int, long> last;     // receiver -> index of the last one it saw
  std::map<int, unsigned> rgot;
  bool toSelf = false;
  unsigned sent = 0;            // by the peer outside
  // sending
  vector<string> out;           // datagrams seen leaving for host:peer
  unsigned outSeen = 0;
};
struct Send { int msg; Row row; bool valid = true; string why; bool done = false; };
struct H {
  std::unique_ptr<P::ExecApplication> app;
  P::AdapterExecInterface *intf = nullptr;
  vector<Msg> msgs;
  vector<Send> sends;
  vector<string> odd;
  unsigned plansLeft = 0, seq = 1, aborts = 0, epoch = 0;
  unsigned failedSends = 0, failedOpens = 0;
  bool quiet = false;            // faults have stopped
  bool stopping = false, aborting = false, sharedPort = false;
  std::map<string, bool> finished;
  std::map<string, bool> receiving;   // ReceiveCommand nodes executing -> known to be accepted
  nanos faultsUntil = 0;
};
H *W;

// ---- the wire format, written from the documentation of the message element
void putInt(string &s, long v, unsigned bytes) { for (unsigned i = bytes; i-- > 0;) s += (char) ((unsigned long) v >> (8 * i)); }
string encode(Msg const &m, Row const &r)
{
  string s;
  for (size_t p = 0; p < m.par.size(); ++p)
    for (Item const &it : r[p])
      switch (m.par[p].t) {
      case STR: { string x = it.s; x.resize(m.par[p].bytes, 0); s += x; break; }
      case FLT: { uint32_t b; memcpy(&b, &it.f, 4); putInt(s, b, 4); break; }
      default: putInt(s, it.i, m.par[p].bytes);
      }
  return s;
}
string word(unsigned max)
{
  static const char A[] = "abcXYZ019 _-<&>\"'";
  string s;
  unsigned n = choose(max + 1);
  for (unsigned i = 0; i < n; ++i) s += A[choose(sizeof A - 1)];
  return s;
}
float flt()
{
  switch (choose(5)) {
  case 0: return 0;
  case 1: return (float) choose(1000) / 8 - 50;
  case 2: return (float) choose(100000) * 1e30f;
  case 3: return -(float) (1 + choose(1000)) * 1e-20f;
  default: return (float) (int) choose(100);
  }
}
Item item(Par const &p)
{
  Item it;
  switch (p.t) {
  case BOOL: it.i = choose(2); break;
  case INT:
    it.i = choose(3) ? (long) choose(2000) - 1000 : p.bytes == 2 ? (choose(2) ? 32767 : -32768) : (choose(2) ? 2147483647L : -2147483648L);
    break;
  case FLT: it.f = flt(); break;
  case STR: it.s = word(p.bytes); break;
  }
  return it;
}
Row row(Msg &m)
{
  Row r;
  for (Par &p : m.par) {
    Val v;
    for (unsigned i = 0; i < (p.n ? p.n : 1); ++i) v.push_back(item(p));
    r.push_back(v);
  }
  if (!m.par.empty()) {   // the first parameter tells one message from another
    unsigned q = W->seq++;
    if (m.par[0].t == INT) r[0][0].i = q;
    else if (m.par[0].t == STR) { char b[20]; snprintf(b, sizeof b, "%04u", q % 10000); r[0][0].s = b; }
  }
  return r;
}
string show(Msg const &m, Row const &r)
{
  std::ostringstream s;
  s << m.name << "(";
  for (size_t p = 0; p < r.size(); ++p) {
    s << (p ? ", " : "");
    for (size_t i = 0; i < r[p].size(); ++i) {
      Item const &it = r[p][i];
      if (i) s << ' ';
      if (m.par[p].t == STR) s << '\'' << it.s << '\''; else if (m.par[p].t == FLT) s << it.f; else s << it.i;
    }
  }
  s << ")";
  return s.str();
}
bool same(Par const &p, Item const &a, Item const &b)
{
  return p.t == STR ? a.s == b.s : p.t == FLT ? a.f == b.f : p.t == BOOL ? !a.i == !b.i : a.i == b.i;
}
bool same(Msg const &m, Row const &a, Row const &b)
{
  for (size_t p = 0; p < m.par.size(); ++p) {
    if (a[p].size() != b[p].size()) return false;
    for (size_t i = 0; i < a[p].size(); ++i) if (!same(m.par[p], a[p][i], b[p][i])) return false;
  }
  return true;
}
// What a datagram means for m; false if it is too short.
bool decode(Msg const &m, string const &d, Row &r)
{
  if (d.size() < m.len) return false;
  size_t o = 0;
  for (Par const &p : m.par) {
    Val v;
    for (unsigned i = 0; i < (p.n ? p.n : 1); ++i) {
      Item it;
      if (p.t == STR) { it.s = d.substr(o, p.bytes); size_t z = it.s.find('\0'); if (z != string::npos) it.s.resize(z); }
      else {
        uint32_t u = 0;
        for (unsigned k = 0; k < p.bytes; ++k) u = u << 8 | (unsigned char) d[o + k];
        if (p.t == FLT) memcpy(&it.f, &u, 4);
        else it.i = p.bytes == 2 ? (long) (int16_t) u : p.bytes == 1 ? (long) u : (long) (int32_t) u;
      }
      o += p.bytes;
      v.push_back(it);
    }
    r.push_back(v);
  }
  return true;
}

// ------------------------------------------------------------------- the plans
string esc(string const &s) { string o; for (char c : s) if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += "&gt;"; else o += c; return o; }
string iv(long i) { return "<IntegerValue>" + std::to_string(i) + "</IntegerValue>"; }
string ivar(string const &n) { return "<IntegerVariable>" + n + "</IntegerVariable>"; }
string sval(string const &s) { return "<StringValue>" + esc(s) + "</StringValue>"; }
const char *ptype(Ty t) { return t == BOOL ? "Boolean" : t == INT ? "Integer" : t == FLT ? "Real" : "String"; }
string lit(Par const &p, Item const &it)
{
  char b[80];
  switch (p.t) {
  case BOOL: return string("<BooleanValue>") + (it.i ? "true" : "false") + "</BooleanValue>";
  case INT: return iv(it.i);
  case FLT: if (it.huge) return "<RealValue>-3.5e38</RealValue>"; snprintf(b, sizeof b, "<RealValue>%.9g</RealValue>", (double) it.f); return b;
  default: return sval(it.s);
  }
}
string decl(string const &n, Par const &p, Val const *init = nullptr, unsigned room = 0)
{
  string s = p.n ? "<DeclareArray><Name>" + n + "</Name><Type>" + ptype(p.t) + "</Type><MaxSize>" + std::to_string(room ? room : init ? init->size() : p.n) + "</MaxSize>"
    : "<DeclareVariable><Name>" + n + "</Name><Type>" + ptype(p.t) + "</Type>";
  if (init && !init->empty()) {
    s += "<InitialValue>";
    if (p.n) s += string("<ArrayValue Type=\"") + ptype(p.t) + "\">";
    for (Item const &i : *init) s += lit(p, i);
    s += string(p.n ? "</ArrayValue>" : "") + "</InitialValue>";
  }
  return s + (p.n ? "</DeclareArray>" : "</DeclareVariable>");
}
string var(string const &n, Par const &p) { return p.n ? "<ArrayVariable>" + n + "</ArrayVariable>" : string("<") + ptype(p.t) + "Variable>" + n + "</" + ptype(p.t) + "Variable>"; }
string known(string const &x) { return "<IsKnown>" + x + "</IsKnown>"; }
string tag(const char *t, string const &x) { return string("<") + t + ">" + x + "</" + t + ">"; }
string start(string const &x) { return tag("StartCondition", x); }
string finished(string const &id) { return "<EQInternal><NodeStateVariable><NodeId>" + id + "</NodeId></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>"; }
string handleIs(string const &id, const char *h) { return "<EQInternal><NodeCommandHandleVariable><NodeId>" + id + "</NodeId></NodeCommandHandleVariable><NodeCommandHandleValue>" + string(h) + "</NodeCommandHandleValue></EQInternal>"; }
string lookup(string const &n) { return "<LookupOnChange><Name><StringValue>" + n + "</StringValue></Name></LookupOnChange>"; }
string assign(string const &id, string const &conds, string const &v, string const &rhs)
{
  return "<Node NodeType=\"Assignment\"><NodeId>" + id + "</NodeId>" + conds + "<NodeBody><Assignment>" + ivar(v) + "<NumericRHS>" + rhs + "</NumericRHS></Assignment></NodeBody></Node>";
}
string command(string const &id, string const &conds, string const &name, string const &args, string const &ret)
{
  return "<Node NodeType=\"Command\"><NodeId>" + id + "</NodeId>" + conds + "<NodeBody><Command>" + ret +
    "<Name><StringValue>" + name + "</StringValue></Name><Arguments>" + args + "</Arguments></Command></NodeBody></Node>";
}
string list(string const &id, string const &conds, string const &decls, string const &kids)
{
  return "<Node NodeType=\"NodeList\"><NodeId>" + id + "</NodeId>" + conds + (decls.empty() ? "" : "<VariableDeclarations>" + decls + "</VariableDeclarations>") +
    "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody></Node>";
}
string receiver(Msg &m, int k, int r)
{
  string R = "R" + std::to_string(k) + "x" + std::to_string(r), K = std::to_string(k);
  string h = "<StringVariable>h</StringVariable>";
  string noH = "<NOT>" + known(h) + "</NOT>";
  bool seqd = choose(2);
  string kids = assign(R + "a", "", "e", lookup("epoch"));
  string failedNow = handleIs(R + "r", "COMMAND_FAILED");
  // once finished; the handle of an earlier iteration stays if it was skipped in this one
  string failed = "<AND>" + failedNow + "<NOT><EQInternal><NodeOutcomeVariable><NodeId>" + R + "r</NodeId></NodeOutcomeVariable><NodeOutcomeValue>SKIPPED</NodeOutcomeValue></EQInternal></NOT></AND>";
  string hv = "<NodeCommandHandleVariable><NodeId>" + R + "r</NodeId></NodeCommandHandleVariable>";
  string notFailed = "<NOT>" + failed + "</NOT><NOT>" + known(hv) + "</NOT>";   // skipped: no handle
  string ab = W->aborting && (r == 0 || choose(2)) ? tag("ExitCondition", "<GT>" + lookup("epoch") + "<ADD>" + ivar("e") + iv(choose(3)) + "</ADD></GT>") : string();
  kids += command(R + "r", start(finished(R + "a")) + ab + tag("EndCondition", "<OR>" + known(h) + failedNow + "</OR>"), "ReceiveCommand", sval(m.name), h);
  kids += command(R + "o", tag("SkipCondition", finished(R + "r")) + start(handleIs(R + "r", "COMMAND_SENT_TO_SYSTEM")), "listening", iv(k) + iv(r), "");
  string decls = decl("h", Par{STR, 0, 0}), args = iv(k) + iv(r) + h, prev = R + "r", all;
  for (size_t p = 0; p < m.par.size(); ++p) {
    string v = "v" + std::to_string(p), id = R + "p" + std::to_string(p);
    decls += decl(v, m.par[p]);
    string done = m.par[p].n ? known("<ArrayElement><Name>" + v + "</Name><Index>" + iv(m.par[p].n - 1) + "</Index></ArrayElement>") : known(var(v, m.par[p]));
    kids += command(id, tag("SkipCondition", "<AND>" + finished(prev) + noH + "</AND>") + start("<AND>" + finished(prev) + known(h) + "</AND>") + tag("EndCondition", done),
                    "GetParameter", h + (p || choose(2) ? iv(p) : string()), var(v, m.par[p]));
    args += var(v, m.par[p]);
    all += finished(id);
    if (seqd) prev = id;
  }
  string ready = m.par.empty() ? finished(R + "r") : "<AND>" + all + known(h) + "</AND>";
  string skip = tag("SkipCondition", "<AND>" + finished(R + "r") + noH + "</AND>");
  kids += command(R + "g", skip + start(ready), "got", args, "");
  kids += assign(R + "i", tag("SkipCondition", "<AND>" + finished(R + "g") + noH + "</AND>") + start("<AND>" + finished(R + "g") + known(h) + "</AND>"), "i", "<ADD>" + ivar("i") + iv(1) + "</ADD>");
  if (choose(2)) kids += command(R + "s", skip + start("<AND>" + finished(R + "g") + known(h) + "</AND>"), "SendReturnValue", h + iv(1), "");
  // a refused ReceiveCommand is tried again some time later
  kids += command(R + "f", tag("SkipCondition", "<AND>" + finished(R + "r") + "<OR>" + known(h) + notFailed + "</OR></AND>") + start("<AND>" + finished(R + "r") + failed + "</AND>"), "refused", iv(k), "");
  kids += "<Node NodeType=\"Empty\"><NodeId>" + R + "w</NodeId>" + tag("SkipCondition", "<AND>" + finished(R + "r") + "<OR>" + known(h) + notFailed + "</OR></AND>")
    + start("<AND>" + finished(R + "f") + "<GT>" + lookup("epoch") + ivar("e") + "</GT></AND>") + "</Node>";
  decls += "<DeclareVariable><Name>e</Name><Type>Integer</Type></DeclareVariable>";
  string cnt = "<DeclareVariable><Name>i</Name><Type>Integer</Type><InitialValue>" + iv(0) + "</InitialValue></DeclareVariable>";
  unsigned n = m.want / m.receivers + (r < (int) (m.want % m.receivers));
  return list(R, "", cnt, list(R + "l", tag("StartCondition", "<LT>" + ivar("i") + iv(n) + "</LT>") + tag("SkipCondition", "<GE>" + ivar("i") + iv(n) + "</GE>") + tag("RepeatCondition", "<LT>" + ivar("i") + iv(n) + "</LT>"), decls, kids));
}
// One command per message sent, one after the other.
string sender(int k, unsigned n)
{
  Msg &m = W->msgs[k];
  string S = "S" + std::to_string(k), kids, prev, decls;
  for (unsigned i = 0; i < n; ++i) {
    int id = W->sends.size();
    Send s;
    s.msg = k;
    s.row = row(m);
    string I = S + "n" + std::to_string(i), args;
    // sometimes an argument the message cannot carry
    int bad = chance(1, 4) ? choose(m.par.size()) : -1;
    unsigned how = choose(4);
    for (size_t p = 0; p < m.par.size(); ++p) {
      Par q = m.par[p];
      string v = S + "v" + std::to_string(i) + "_" + std::to_string(p);
      Val *init = &s.row[p];
      Val none;
      unsigned room = 0;
      if ((int) p == bad) {
        if (how == 0) { init = &none; s.valid = false; s.why = "an unknown argument"; if (q.n) { q.n = 0; } }
        else if (how == 1) {
          Item &it = s.row[p].back();
          if (q.t == INT && q.bytes == 2) { it.i = choose(2) ? 32768 : -32769; s.valid = false; s.why = "an integer out of range"; }
          else if (q.t == STR) { it.s = string(q.bytes + 1, 'x'); s.valid = false; s.why = "a string too long"; }
          else if (q.t == FLT) { it.huge = true; s.valid = false; s.why = "a number out of range"; }
        }
        else if (how == 3) {
          if (q.n > 1) { room = q.n; s.row[p].pop_back(); s.valid = false; s.why = "an unknown array element"; }
          else if (q.t == FLT) { s.row[p].back().huge = true; s.valid = false; s.why = "a number out of range"; }
        }
        else if (q.n) { if (choose(2)) s.row[p].push_back(s.row[p][0]); else q.n = 0, s.row[p].resize(1); s.valid = false; s.why = "an array of another size"; }
        else { q.t = q.t == BOOL ? STR : BOOL; s.valid = false; s.why = "an argument of another type"; }
      }
      if (q.n || init->empty() || choose(2)) {
        decls += decl(v, q, init, room);
        args += var(v, q);
      }
      else args += lit(q, (*init)[0]);
    }
    if (bad < 0 && chance(1, 12)) { args += iv(1); s.valid = false; s.why = "an argument too many"; }
    W->sends.push_back(s);
    kids += command(I, prev.empty() ? "" : start(finished(prev)), m.name, args, "");
    kids += command(I + "d", start(finished(I)), "sent", iv(id) + handleIs(I, "COMMAND_SUCCESS"), "");
    prev = I + "d";
  }
  return list(S, "", decls, kids);
}
// Commands the adapter cannot carry out, each of which has to fail.
string oddities(unsigned n)
{
  string kids, prev, unk = "<StringVariable>unk</StringVariable>";
  string m0 = sval(W->msgs[0].name);
  for (unsigned i = 0; i < n; ++i) {
    string I = "O" + std::to_string(i), name, args, why;
    switch (choose(16)) {
    case 0: name = "ReceiveCommand"; why = "no argument"; break;
    case 1: name = "ReceiveCommand"; args = m0 + m0; why = "two arguments"; break;
    case 2: name = "ReceiveCommand"; args = iv(3); why = "a number for the name"; break;
    case 3: name = "ReceiveCommand"; args = unk; why = "an unknown name"; break;
    case 4: name = "ReceiveCommand"; args = sval("nomsg"); why = "the name of no message"; break;
    case 5: name = "GetParameter"; why = "no argument"; break;
    case 6: name = "GetParameter"; args = m0 + iv(0) + iv(0); why = "three arguments"; break;
    case 7: name = "GetParameter"; args = iv(3) + iv(0); why = "a number for the message"; break;
    case 8: name = "GetParameter"; args = unk + iv(0); why = "an unknown message"; break;
    case 9: name = "GetParameter"; args = sval("nomsg:1") + iv(0); why = "the name of no message"; break;
    case 10: name = "GetParameter"; args = m0 + iv((long) W->msgs[0].par.size() + choose(2)); why = "too great an index"; break;
    case 11: name = "GetParameter"; args = m0 + iv(-1 - (long) choose(2)); why = "a negative index"; break;
    case 12: name = "GetParameter"; args = m0 + (choose(2) ? sval("0") : string("<IntegerVariable>unki</IntegerVariable>")); why = "no index"; break;
    case 13: name = "SendMessage"; args = choose(2) ? string() : m0 + m0; why = "other than one argument"; break;
    case 14: name = "SendMessage"; args = choose(2) ? iv(1) : unk; why = "no name"; break;
    default: name = W->msgs[0].name; why = "no arguments"; break;
    }
    event("%s is %s with %s", I.c_str(), name.c_str(), why.c_str());
    W->odd.push_back(name + " with " + why);
    kids += command(I, prev.empty() ? "" : start(finished(prev)), name, args, "");
    kids += command(I + "d", start(finished(I)), "odd", iv(i) + handleIs(I, "COMMAND_FAILED"), "");
    prev = I + "d";
  }
  return list("O", "", decl("unk", Par{STR, 0, 0}) + decl("unki", Par{INT, 0, 0}), kids);
}
string wrap(string const &node)
{
  string s = "<PlexilPlan><GlobalDeclarations><StateDeclaration><Name>epoch</Name><Return><Name>r</Name><Type>Integer</Type></Return></StateDeclaration>";
  return s + "</GlobalDeclarations>" + node + "</PlexilPlan>";
}

// ------------------------------------------------------------------- the oracle
int intOf(P::Value const &v) { P::Integer i = -999999; v.getValue(i); return i; }
template <class T> bool items(P::Value const &v, std::function<Item(T const &)> f, Val &out)
{
  T const *a = nullptr;
  if (!v.getValuePointer(a)) return false;
  out.clear();
  out.push_back(f(*a));
  return true;
}
bool fromValue(Par const &p, P::Value const &v, Val &out)
{
  auto bad = [&] { return false; };
  out.clear();
  if (!v.isKnown()) return bad();
  if (!p.n) {
    Item it;
    switch (p.t) {
    case BOOL: { bool b; if (!v.getValue(b)) return bad(); it.i = b; break; }
    case INT: { P::Integer i; if (!v.getValue(i)) return bad(); it.i = i; break; }
    case FLT: { P::Real r; if (!v.getValue(r)) return bad(); it.f = r; break; }
    default: { P::String const *s; if (!v.getValuePointer(s)) return bad(); it.s = *s; }
    }
    out.push_back(it);
    return true;
  }
  for (unsigned i = 0; i < p.n; ++i) {
    Item it;
    switch (p.t) {
    case BOOL: { P::BooleanArray const *a; bool b; if (!v.getValuePointer(a) || a->size() != p.n || !a->getElement(i, b)) return bad(); it.i = b; break; }
    case INT: { P::IntegerArray const *a; P::Integer b; if (!v.getValuePointer(a) || a->size() != p.n || !a->getElement(i, b)) return bad(); it.i = b; break; }
    case FLT: { P::RealArray const *a; P::Real b; if (!v.getValuePointer(a) || a->size() != p.n || !a->getElement(i, b)) return bad(); it.f = b; break; }
    default: { P::StringArray const *a; P::String const *b; if (!v.getValuePointer(a) || a->size() != p.n || !a->getElementPointer(i, b)) return bad(); it.s = *b; }
    }
    out.push_back(it);
  }
  return true;
}
void gotMessage(vector<P::Value> const &a)
{
  int k = intOf(a[0]), r = intOf(a[1]);
  Msg &m = W->msgs[k];
  Row row;
  for (size_t p = 0; p < m.par.size(); ++p) {
    Val v;
    if (!fromValue(m.par[p], a[3 + p], v)) {
      std::ostringstream s;
      s << "parameter " << p << " of message " << m.name << " came out as " << a[3 + p] << ", which is no " << TYN[m.par[p].t] << (m.par[p].n ? " array of the declared size" : "");
      violation("message-wrong", s.str());
    }
    row.push_back(v);
  }
  ++m.got;
  ++m.rgot[r];
  event("got %s", show(m, row).c_str());
  nontrivial();
  long i = m.last.count(r) ? m.last[r] + 1 : 0;
  long hit = -1;
  for (long j = i; j < (long) m.arr.size(); ++j)
    if (m.arr[j].whole && !m.arr[j].used && same(m, m.arr[j].row, row)) { hit = j; break; }
  if (hit < 0) {
    for (Arr &x : m.arr)
      if (x.whole && same(m, x.row, row))
        violation("message-order", "receiver " + std::to_string(r) + " got " + show(m, row) + (x.used ? " a second time" : " after a message which arrived later"));
    violation("message-invented", "the plan got " + show(m, row) + ", which no datagram carried");
  }
  m.arr[hit].used = true;
  m.last[r] = hit;
  if (m.receivers == 1) {
    unsigned skipped = 0;
    for (long j = i; j < hit; ++j) if (m.arr[j].whole && !m.arr[j].mayDrop) ++skipped;
    if (skipped > m.lossAllowed)
      violation("message-lost", "the plan got " + show(m, row) + " but not " + show(m, m.arr[i].row) + ", which arrived earlier");
    m.lossAllowed -= skipped;
  }
}
void sentMessage(int id, bool ok)
{
  Send &s = W->sends[id];
  Msg &m = W->msgs[s.msg];
  s.done = true;
  event("sent %d %s: %s", id, ok ? "success" : "failure", m.name.c_str());
  nontrivial();
  unsigned n = m.out.size() - m.outSeen;
  string what = show(m, s.row);
  if (ok) {
    if (!s.valid) violation("send-invalid", "the command " + what + " has " + s.why + " and is reported as sent");
    if (n == 0) violation("send-false-success", "the command " + what + " is reported as a success but no datagram left");
    if (n > 1) violation("send-twice", "the command " + what + " sent " + std::to_string(n) + " datagrams");
    string want = encode(m, s.row);
    string &d = m.out.back();
    if (d != want) {
      size_t i = 0;
      while (i < d.size() && i < want.size() && d[i] == want[i]) ++i;
      violation("send-wrong", "the datagram for " + what + " has " + std::to_string(d.size()) + " bytes and differs from the " + std::to_string(want.size()) + " expected at byte " + std::to_string(i));
    }
    count("probe.sent_ok");
  }
  else {
    if (n) violation("send-false-failure", "the command " + what + " is reported as failed but its datagram left");
    if (s.valid && ++W->failedSends > net::sendFaults) violation("send-failed", "the command " + what + " failed although nothing went wrong with the network");
    count(s.valid ? "probe.send_fault" : "probe.send_refused");
  }
  m.outSeen = m.out.size();
}
void execute(P::Command *cmd, P::AdapterExecInterface *f)
{
  string n = cmd->getName();
  vector<P::Value> const &a = cmd->getArgValues();
  if (n == "got") gotMessage(a);
  else if (n == "sent") { bool b = false; a[1].getValue(b); sentMessage(intOf(a[0]), b); }
  else if (n == "odd") {
    bool b = false;
    a[1].getValue(b);
    if (!b) violation("odd-accepted", "a command did not fail: " + W->odd[intOf(a[0])]);
    count("probe.odd_refused");
    nontrivial();
  }
  else if (n == "listening") {
    string id = "R" + std::to_string(intOf(a[0])) + "x" + std::to_string(intOf(a[1])) + "r";
    if (W->receiving.count(id)) { W->receiving[id] = true; event("%s listens", id.c_str()); }
  }
  else if (n == "refused") {
    count("probe.receive_refused");
    event("refused %d", intOf(a[0]));
    if (++W->failedOpens > net::openFaults && !W->sharedPort && W->msgs[intOf(a[0])].ownPort)
      violation("receive-refused", "ReceiveCommand for " + W->msgs[intOf(a[0])].name + " failed although its port could be opened");
  }
  f->handleCommandAck(cmd, P::COMMAND_SUCCESS);
  f->notifyOfExternalEvent();
}
struct SimAdapter final : P::InterfaceAdapter {
  SimAdapter(P::AdapterExecInterface &i, P::AdapterConf *c) : P::InterfaceAdapter(i, c) { W->intf = &i; }
  bool initialize(P::AdapterConfiguration *c) override
  {
    for (const char *n : {"got", "sent", "refused", "listening", "odd"})
      c->registerCommandHandlerFunction(n, [](P::Command *cmd, P::AdapterExecInterface *f) { execute(cmd, f); });
    c->registerLookupHandlerFunction("epoch", [](P::State const &, P::LookupReceiver *r) { r->update((P::Integer) W->epoch); });
    return true;
  }
  bool start() override { return true; }
  void stop() override {}
};
struct Tap final : P::ExecListenerBase {
  P::ExecListenerBase *hub;
  void notifyOfTransitions(vector<P::NodeTransition> const &ts) override
  {
    for (auto &t : ts) {
      event("%s -> %s", t.node->getNodeId().c_str(), P::nodeStateName(t.newState).c_str());
      if (!t.node->getParent() && t.newState == P::FINISHED_STATE) { W->finished[t.node->getNodeId()] = true; --W->plansLeft; }
      string const &id = t.node->getNodeId();
      if (id[0] == 'R' && id.back() == 'r') { if (t.newState == P::EXECUTING_STATE) W->receiving[id] = false; else W->receiving.erase(id); }
      // an aborted ReceiveCommand may have been given a message already
      if (t.newState == P::FAILING_STATE && t.node->getType() == P::NodeType_Command) { ++W->aborts; count("probe.abort"); for (Msg &m : W->msgs) ++m.lossAllowed; }
    }
    hub->notifyOfTransitions(ts);
  }
  void notifyOfAssignment(P::Expression const *d, string const &n, P::Value const &v) override { hub->notifyOfAssignment(d, n, v); }
  void stepComplete(unsigned c) override { hub->stepComplete(c); }
};
Tap s_tap;

// ------------------------------------------------------------------ the network
void faultsOn(bool on)
{
  net::Faults f;
  if (on) {
    if (chance(1, 3)) f.socket = 6;
    if (chance(1, 3)) f.bind = 4;
    if (chance(1, 3)) f.connect = 4;
    if (chance(1, 3)) f.send = 4;
    if (chance(1, 3)) f.resolve = 4;
    if (chance(1, 3)) f.pollIntr = 4;
    if (chance(1, 4)) f.recv = 8;
    if (chance(1, 4)) f.resolveSlow = 500 * MS;
  }
  net::faults = f;
}
void carry(int port, string const &d, bool faulty)
{
  nanos delay = choose(2) ? 0 : (nanos) choose(100) * MS;
  unsigned what = faulty ? weighted({6, 1, 1, 1, 1}) : 0;
  switch (what) {
  case 1: count("fault.datagram_lost"); event("lost"); return;
  case 2: count("fault.datagram_duplicated"); after(delay + (nanos) choose(50) * MS, [port, d] { net::arrive(port, d); }); break;
  case 3: count("fault.datagram_delayed"); delay += (nanos) choose(20) * 50 * MS; break;
  case 4: {
    string x = d;
    if (choose(3)) { x.resize(choose(x.size() + 1)); count("fault.datagram_short"); }
    else { x += string(1 + choose(20), 'z'); count("fault.datagram_long"); }
    after(delay, [port, x] { net::arrive(port, x); });
    return;
  }
  default: break;
  }
  after(delay, [port, d] { net::arrive(port, d); });
}
void remote(int k)
{
  Msg &m = W->msgs[k];
  while (!W->stopping && m.got < m.want) {
    sleepFor((nanos) (1 + choose(W->quiet ? 40 : 100)) * 10 * MS);
    if (W->stopping || m.got >= m.want) break;
    if (!W->quiet && m.sent > 300) continue;
    unsigned burst = 1 + choose(3);
    for (unsigned i = 0; i < burst; ++i) {
      Row r = row(m);
      for (size_t p = 0; p < m.par.size(); ++p)   // any non-zero value is true
        if (m.par[p].t == BOOL) for (Item &it : r[p]) if (it.i && choose(2)) it.i = 1L << choose(8 * m.par[p].bytes);
      event("peer sends %s", show(m, r).c_str());
      ++m.sent;
      carry(m.local, encode(m, r), !W->quiet);
    }
  }
}
void epochs()
{
  while (!W->stopping && W->plansLeft) {
    sleepFor((nanos) (1 + choose(20)) * 100 * MS);
    if (W->stopping) break;
    if (W->quiet && W->aborting) {
      // aborts are faults, too: only refused commands still need to be woken
      if (choose(4)) continue;
    }
    ++W->epoch;
    event("epoch %u", W->epoch);
    W->intf->handleValueChange(P::State("epoch", 0), P::Value((P::Integer) W->epoch));
    W->intf->notifyOfExternalEvent();
  }
}

void deployed()
{
  H h;
  W = &h;
  if (choose(2)) params.memPreempt = 0;
  if (chance(1, 3)) { params.stallMean = 400; params.stallMax = (1 + choose(6)) * 60 * MS; }
  progressLimit(1500000);
  h.aborting = chance(1, 4);
  unsigned nm = 1 + choose(3);
  bool share = chance(1, 8) && nm > 1;
  for (unsigned k = 0; k < nm; ++k) {
    Msg m;
    m.name = "msg" + std::to_string(k);
    m.local = 5000 + k;
    m.peer = 6000 + k;
    m.host = chance(1, 3) ? "localhost" : "peer" + std::to_string(k);
    m.ip = m.host == "localhost" ? 0x7f000001 : 0x0a000100 + k;
    unsigned np = choose(5);
    for (unsigned p = 0; p < np; ++p) {
      Par q;
      q.t = p ? (Ty) choose(4) : choose(3) ? INT : STR;
      q.n = p && chance(1, 3) ? 1 + choose(4) : 0;
      static const unsigned BB[] = {4, 1, 2}, IB[] = {4, 2};
      q.bytes = q.t == BOOL ? BB[choose(3)] : q.t == INT ? (p ? IB[choose(2)] : 4) : q.t == FLT ? 4 : p ? 1 + choose(12) : 4 + choose(8);
      m.par.push_back(q);
      m.len += q.bytes * (q.n ? q.n : 1);
    }
    unsigned role = string(sim::profile) == "send" ? 1 + choose(2) : weighted({3, 1, 2});   // receive, send, both
    if (role != 1) { m.want = 1 + choose(6); m.receivers = m.want > 1 && chance(1, 3) ? 2 + (m.want > 2 && choose(2)) : 1; }
    if (np && role != 0 && m.host == "localhost" && choose(2)) { m.toSelf = true; m.peer = m.local; }
    h.msgs.push_back(m);
  }
  if (share) { h.sharedPort = true; h.msgs[1].local = h.msgs[0].local; h.msgs[1].toSelf = h.msgs[0].toSelf = false; h.msgs[0].peer = 6000; h.msgs[1].peer = 6001; h.msgs[1].ownPort = h.msgs[0].ownPort = false; if (h.msgs[0].want && h.msgs[1].want) h.msgs[1].want = h.msgs[1].receivers = 0; }

  // ---- plans
  vector<std::pair<string, string>> plans;
  bool one = choose(2);
  string all;
  for (unsigned k = 0; k < nm; ++k) {
    Msg &m = h.msgs[k];
    vector<string> parts;
    for (unsigned r = 0; r < m.receivers; ++r) parts.push_back(receiver(m, k, r));
    if (!m.par.empty() && (m.toSelf || !m.want || choose(3) == 0)) parts.push_back(sender(k, 1 + choose(5)));
    for (string &s : parts)
      if (one) all += s;
      else { string id = "P" + std::to_string(plans.size()); plans.push_back({id, wrap(list(id, "", "", s))}); }
  }
  if (chance(1, 4)) {
    string o = oddities(1 + choose(4));
    if (one) all += o; else plans.push_back({"P" + std::to_string(plans.size()), ""}), plans.back().second = wrap(list(plans.back().first, "", "", o));
  }
  if (all.empty() && plans.empty()) all = "<Node NodeType=\"Empty\"><NodeId>E</NodeId></Node>";
  if (!all.empty()) plans.push_back({"P0", wrap(list("P0", "", "", all))});
  h.plansLeft = plans.size();

  // ---- network
  net::resolver = [](string const &n) -> uint32_t { for (Msg &m : W->msgs) if (m.host == n) return m.ip; return 0; };
  net::onSend = [](uint32_t ip, int port, string const &d) {
    Msg *to = nullptr;
    for (Msg &m : W->msgs) if (m.ip == ip && m.peer == port) { to = &m; break; }
    if (!to) violation("send-misdirected", "a datagram was sent to port " + std::to_string(port) + ", where no message is configured to go");
    to->out.push_back(d);
    if (ip == 0x7f000001 && to->toSelf) carry(port, d, !W->quiet);
  };
  net::onArrive = [](int port, string const &d, bool queued) {
    if (!queued) {
      count("probe.datagram_to_closed_port");
      for (auto &r : W->receiving) {
        Msg &m = W->msgs[r.first[1] - '0'];
        bool owed = false;   // a message is on its way to one of the receivers, maybe this one
        for (Arr &x : m.arr) owed = owed || (x.whole && !x.used);
        if (r.second && !owed && m.local == port && !net::bound(port) && !W->stopping)
          violation("port-closed", "a datagram reached port " + std::to_string(port) + ", which is closed although " + r.first + " is waiting for it");
      }
      return;
    }
    for (Msg &m : W->msgs) {
      if (m.local != port || !m.want) continue;
      Arr a;
      a.whole = decode(m, d, a.row);
      a.mayDrop = d.size() != m.len;
      if (a.whole) event("arrives: %s", show(m, a.row).c_str());
      m.arr.push_back(a);
    }
  };
  net::onLost = [](int port, unsigned n) {
    for (Msg &m : W->msgs) if (m.local == port) for (size_t i = m.arr.size(), c = n; c && i-- > 0; --c) m.arr[i].mayDrop = true;
  };
  faultsOn(true);
  if (chance(1, 20)) net::faults.pipe = 2;
  if (chance(1, 5)) { int p = 5000 + choose(nm); net::occupy(p, true); after((nanos) choose(60) * 100 * MS, [p] { net::occupy(p, false); }); }

  // ---- the application
  h.app.reset(P::makeExecApplication());
  P::registerSimAdapter();
  initUdpAdapter();
  bool defLocal = chance(1, 4), defPeer = chance(1, 4), defHost = chance(1, 4);
  std::ostringstream cfg;
  cfg << "<Interfaces><Adapter AdapterType=\"Time\"><Timebase Type=\"" << (choose(2) ? "Itimer" : "Posix") << "\"/></Adapter><Adapter AdapterType=\"SimA\"/><Adapter AdapterType=\"UdpAdapter\"";
  if (defLocal) cfg << " default_local_port=\"" << h.msgs[0].local << "\"";
  if (defPeer) cfg << " default_peer_port=\"" << h.msgs[0].peer << "\"";
  if (defHost) cfg << " default_peer=\"" << h.msgs[0].host << "\"";
  cfg << ">";
  for (unsigned k = 0; k < nm; ++k) {
    Msg &m = h.msgs[k];
    cfg << "<Message name=\"" << m.name << "\"";
    if (!defLocal || k) cfg << " local_port=\"" << m.local << "\"";
    if (!defPeer || k) cfg << " peer_port=\"" << m.peer << "\"";
    if (!defHost || k) if (m.host != "localhost" || defHost || choose(2)) cfg << " peer=\"" << m.host << "\"";
    cfg << ">";
    for (Par &p : m.par) {
      cfg << "<Parameter type=\"" << TYN[p.t] << (p.n ? "-array" : "") << "\" bytes=\"" << p.bytes << "\"";
      if (p.n) cfg << " elements=\"" << p.n << "\"";
      cfg << "/>";
    }
    cfg << "</Message>";
  }
  string wrong;
  if (chance(1, 24)) {   // a definition of a message which makes no sense
    const char *ty[] = {"int", "float", "bool", "string", "int-array", "bool-array", "string-array", "float-array"};
    string t = ty[choose(4)], at = ty[4 + choose(4)];
    string head = "<Message name=\"wrong\" local_port=\"5100\" peer_port=\"6100\" peer=\"localhost\">";
    auto par = [](string const &x) { return "<Parameter " + x + "/></Message>"; };
    unsigned bigs[] = {65536, 70000, 0, 100000};
    string big = choose(5) ? std::to_string(bigs[choose(4)]) : "none";
    string good = choose(2) ? "<Parameter type=\"int\" bytes=\"4\"/>" : "";
    switch (choose(13)) {
    case 0: wrong = "<Message name=\"wrong\" local_port=\"" + big + "\" peer_port=\"6100\" peer=\"localhost\"></Message>"; break;
    case 1: wrong = "<Message name=\"wrong\" local_port=\"5100\" peer_port=\"" + big + "\" peer=\"localhost\"></Message>"; break;
    case 2: wrong = head + good + par(choose(2) ? "bytes=\"4\"" : "type=\"\" bytes=\"4\""); break;
    case 3: wrong = head + good + par("type=\"" + t + "\""); break;
    case 4: wrong = head + good + par("type=\"" + t + "\" bytes=\"0\""); break;
    case 5: wrong = head + good + par("type=\"int\" bytes=\"" + std::to_string(choose(2) ? 1 : 3 + 5 * choose(2)) + "\""); break;
    case 6: wrong = head + good + par("type=\"bool\" bytes=\"" + std::to_string(choose(2) ? 8 : 3) + "\""); break;
    case 7: wrong = head + good + par("type=\"float\" bytes=\"" + std::to_string(choose(2) ? 1 : 3) + "\""); break;
    case 8: wrong = head + good + par(choose(2) ? "type=\"double\" bytes=\"4\"" : "type=\"integers\" bytes=\"4\""); break;
    case 9: wrong = head + good + par("type=\"" + at + "\" bytes=\"4\""); break;
    case 10: wrong = head + good + par("type=\"" + at + "\" bytes=\"4\" elements=\"" + (choose(2) ? "0" : "x") + "\""); break;
    case 11: wrong = head + good + par("type=\"" + t + "\" bytes=\"4\" elements=\"" + std::to_string(1 + choose(3)) + "\""); break;
    default: wrong = choose(2) ? "<Message local_port=\"5100\" peer_port=\"6100\"></Message>" : "<Message name=\"\" local_port=\"5100\" peer_port=\"6100\"></Message>"; break;
    }
    cfg << wrong;
  }
  else if (!defLocal && chance(1, 60)) cfg << (wrong = "<Message name=\"wrong\" peer_port=\"6100\"></Message>");
  else if (!defPeer && chance(1, 60)) cfg << (wrong = "<Message name=\"wrong\" local_port=\"5100\"></Message>");
  cfg << "</Adapter></Interfaces>";
  static pugi::xml_document doc;
  doc.load_string(cfg.str().c_str());
  event("%s", cfg.str().c_str());
  bool configured = h.app->initialize(doc.document_element());
  if (!wrong.empty()) {
    if (configured) violation("config-accepted", "the configuration was accepted in spite of " + wrong);
    count("probe.config_refused");
    nontrivial();
    finish();
  }
  if (!configured) violation("config-refused", "the configuration was refused: " + cfg.str());
  s_tap.hub = h.app->listenerHub();
  h.app->exec()->setExecListener(&s_tap);
  if (!h.app->startInterfaces()) inconclusive("startInterfaces");
  bool dead = net::openFaults >= 1000000;   // no control pipe: nothing can be received
  if (!h.app->run()) inconclusive("run");
  for (unsigned k = 0; k < nm; ++k) if (h.msgs[k].want) spawn("peer" + std::to_string(k), [k] { remote(k); });
  spawn("epochs", [] { epochs(); });
  for (auto &p : plans) {
    pugi::xml_document d;
    if (d.load_string(p.second.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single).status != pugi::status_ok) inconclusive("harness: plan XML");
    event("addPlan %s", p.first.c_str());
    if (!h.app->addPlan(&d)) violation("plan-rejected", "addPlan refused a valid plan");
    h.app->notifyExec();
    if (choose(2)) sleepFor((nanos) choose(100) * 10 * MS);
  }
  bool early = chance(1, 6) || dead;
  auto progress = [&h] { return h.plansLeft == 0; };
  nanos t0 = now();
  if (early) waitUntil("some progress", progress, now() + (nanos) (1 + choose(50)) * 100 * MS);
  else {
    waitUntil("the end of the faults", progress, now() + (nanos) (1 + choose(30)) * SEC);
    event("faults end");
    faultsOn(false);
    net::occupy(5000, false); net::occupy(5001, false); net::occupy(5002, false);
    h.quiet = true;
    if (waitUntil("the end of all plans", progress, now() + 120 * SEC)) {
      string s;
      for (Msg &m : h.msgs) if (m.got < m.want) s += " " + m.name + ": " + std::to_string(m.got) + " of " + std::to_string(m.want) + " received, " + std::to_string(m.arr.size()) + " datagrams arrived" + (net::bound(m.local) ? "" : " and its port is closed") + ";";
      for (Send &x : h.sends) if (!x.done) { s += " a command " + h.msgs[x.msg].name + " never ended;"; break; }
      violation("no-progress", "the plans did not end within 120 s after the last fault;" + s + " open: " + net::openList() + "; threads: " + threadDump());
    }
    for (Msg &m : h.msgs) {
      if (m.receivers < 2) continue;
      long top = -1;
      for (size_t i = 0; i < m.arr.size(); ++i) if (m.arr[i].used) top = i;
      unsigned lost = 0;
      string what;
      for (long i = 0; i < top; ++i) if (m.arr[i].whole && !m.arr[i].used && !m.arr[i].mayDrop) { ++lost; what = show(m, m.arr[i].row); }
      if (lost > h.aborts) violation("message-lost", "no receiver got " + what + ", which arrived before the last message received");
    }
  }
  event("stop");
  h.stopping = true;
  h.app->stop();
  event("stopped");
  waitIdle(now() + 3 * SEC);
  h.app.reset();
  waitIdle(now() + 1 * SEC);
  event("destroyed");
  if (net::openCount()) violation("descriptor-leak", "descriptors still open after the application was stopped and destroyed: " + net::openList());
  simtime((double) (now() - 1000 * SEC) / 1e9);
  cover(scheduleHash());
  finish();
}
} // namespace
namespace PLEXIL { void registerSimAdapter() { REGISTER_ADAPTER(SimAdapter, "SimA"); } }
int main(int argc, char **argv) { return sim::runnerMain(argc, argv, "udp", [] {
  sim::start();
  deployed();
}); }
