// W8: the universal executive as a program. Its real main() with the real adapters it ships with (time, utility, launcher), on
// simulated threads, clock and files: options, configuration, resources, libraries and plan come from a file system of the
// simulator's, which may refuse, fail to read or truncate; threads and timers may fail to start.
#include "simnet.hh"
#include "pugixml.hpp"

#include <algorithm>
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <map>
#include <set>
#include <streambuf>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

int universal_main(int argc, char **argv);
using namespace sim;
using std::string;
using std::vector;

namespace {
enum { FT_NONE, FT_ACCES, FT_MFILE, FT_DIR, FT_EIO };
struct File { string data; int fault = FT_NONE; };
struct Line { string text; vector<int> after; bool optional = false; double notBefore = 0; int seen = -1; };
struct Out { string text; double wall; };
struct LibVar { string id; vector<string> dirs; string viaL; };   // which file of a library is the one used
struct H {
  bool on = false, over = false;
  std::map<string, File> fs;
  vector<Line> lines;
  vector<Out> out;
  string part;
  vector<string> dirs;              // in the order searched, "" first
  double t0 = 0, last = 0;
  int ids = 0, libs = 0;
  bool util = true, launcher = true, resKnown = true;
  std::map<string, double> res;     // resource -> what one may use
  std::set<string> planLibs;        // libraries the plan calls directly (or through a library)
  unsigned opens = 0;
  int result = -99;
  // the viewer
  bool viewer = false, refuse = false, block = false, gone = false;
  net::Peer *peer = nullptr;
  string buf, planRoot;
  std::map<string, string> state;   // node path -> the state last told
  unsigned msgs = 0, acks = 0, infos = 0, plans = 0;
};
H *W;
double wallNow() { return (double) (now() + wallOffset()) / 1e9; }

// ------------------------------------------------------------------ output
struct Capture : std::streambuf {
  std::streamsize xsputn(const char *s, std::streamsize n) override { add(s, (size_t) n); return n; }
  int overflow(int c) override { char x = (char) c; if (c != EOF) add(&x, 1); return c == EOF ? 0 : c; }
  void add(const char *s, size_t n)
  {
    NoPreempt np;
    for (size_t i = 0; i < n; ++i)
      if (s[i] != '\n') W->part += s[i];
      else { W->out.push_back(Out{W->part, wallNow()}); event("out: %s", W->part.c_str()); if (W->over) violation("late-output", "printed after the program ended: " + W->part); W->part.clear(); }
  }
};
struct Null : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };

// ------------------------------------------------------------------ the plan
string esc(string const &s) { string o; for (char c : s) if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += "&gt;"; else if (c == '\n') o += "&#10;"; else o += c; return o; }
string sv(string const &s) { return "<StringValue>" + esc(s) + "</StringValue>"; }
string iv(long i) { return "<IntegerValue>" + std::to_string(i) + "</IntegerValue>"; }
string finished(string const &id) { return "<EQInternal><NodeStateVariable><NodeId>" + id + "</NodeId></NodeStateVariable><NodeStateValue>FINISHED</NodeStateValue></EQInternal>"; }
string strv(string const &n) { return "<StringVariable>" + n + "</StringVariable>"; }
string decl(string const &n, const char *ty, string const &init = "") { return "<DeclareVariable><Name>" + n + "</Name><Type>" + ty + "</Type>" + (init.empty() ? "" : "<InitialValue>" + init + "</InitialValue>") + "</DeclareVariable>"; }
string node(const char *ty, string const &id, string const &cond, string const &body) { return string("<Node NodeType=\"") + ty + "\"><NodeId>" + id + "</NodeId>" + cond + body + "</Node>"; }
string listNode(string const &id, string const &cond, string const &decls, string const &kids)
{
  return node("NodeList", id, cond + (decls.empty() ? "" : "<VariableDeclarations>" + decls + "</VariableDeclarations>"), "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody>");
}
string cmd(string const &id, string const &cond, string const &ret, string const &name, string const &args, string const &res = "")
{
  return node("Command", id, cond, "<NodeBody><Command>" + res + ret + "<Name>" + sv(name) + "</Name><Arguments>" + args + "</Arguments></Command></NodeBody>");
}
string fresh(const char *p) { return p + std::to_string(W->ids++); }
struct Need { vector<int> prior; double notBefore = 0; };   // what has happened before a node begins
int newLine(string const &text, Need const &n, bool optional = false)
{
  Line l;
  l.text = text;
  l.after = n.prior;
  l.optional = optional;
  l.notBefore = n.notBefore;
  W->lines.push_back(l);
  return (int) W->lines.size() - 1;
}
// random arguments and how they print
void words(string &xml, vector<string> &txt)
{
  static const char *const S[] = {"a", "x y", "<&>", "\"q\"", "0", "[1]", "true", "\xc3\xa9", "%d%s", "\\n", "#"};
  for (unsigned n = choose(4); n--;)
    switch (choose(4)) {
    case 0: { bool b = choose(2); xml += string("<BooleanValue>") + (b ? "true" : "false") + "</BooleanValue>"; txt.push_back(b ? "true" : "false"); break; }
    case 1: { static const int I[] = {0, -1, 2147483647, -2147483647 - 1}; int i = choose(2) ? I[choose(4)] : (int) choose(2000) - 1000; xml += iv(i); txt.push_back(std::to_string(i)); break; }
    case 2: { static const char *const R[][2] = {{"0.5", "0.5"}, {"-2.25", "-2.25"}, {"1e100", "1e+100"}, {"3", "3"}, {"123456.789", "123456.789"}, {"1e-7", "1e-07"}};
      auto &r = R[choose(6)]; xml += string("<RealValue>") + r[0] + "</RealValue>"; txt.push_back(r[1]); break; }
    default: { const char *s = S[choose(sizeof S / sizeof *S)]; xml += sv(s); txt.push_back(s); }
    }
}
string join(vector<string> const &t, bool pretty) { string s; for (auto &x : t) s += x + (pretty ? " " : ""); return s; }
// a command which prints one line; n: what comes before
string printer(string const &id, string const &cond, Need &n, string const &res, bool printed, bool optional, string const &extraXml = "", string const &extraTxt = "")
{
  string x, tok = "L" + std::to_string(W->lines.size()) + ":";
  vector<string> t{tok};
  words(x, t);
  if (!extraTxt.empty()) t.push_back(extraTxt);
  bool pretty = choose(2);
  if (printed && W->util) n.prior.push_back(newLine(join(t, pretty), n, optional));
  return cmd(id, cond, "", pretty ? "pprint" : "print", sv(tok) + x + extraXml + (pretty ? "" : sv("\n")), res);
}
string makeLib(bool viaL, bool nested, Need &n, unsigned depth, string *idOut, bool absent, int bad);
string gen(unsigned depth, string const &id, string const &cond, Need &n);
string seq(unsigned depth, string const &id, string const &cond, Need &n, string const &decls, string kids, string prev)
{
  for (unsigned k = 1 + choose(depth ? 4 : 7); k--;) {
    string c = fresh("n");
    kids += gen(depth + 1, c, prev.empty() ? "" : "<StartCondition>" + finished(prev) + "</StartCondition>", n);
    prev = c;
  }
  return listNode(id, cond, decls, kids);
}
string timeIs(double at, double tol)
{
  char b[200];
  snprintf(b, sizeof b, "<GE><LookupOnChange><Name><StringValue>time</StringValue></Name><Tolerance><RealValue>%.3f</RealValue></Tolerance></LookupOnChange><RealValue>%.6f</RealValue></GE>", tol, at);
  return b;
}
string gen(unsigned depth, string const &id, string const &cond, Need &n)
{
  H &h = *W;
  switch (weighted({6, (unsigned) (depth < 4 ? 2 : 0), (unsigned) (depth < 4 ? 2 : 0), 3, 2, (unsigned) (depth < 3 ? 3 : 0), (unsigned) (h.launcher && depth < 3 ? 2 : 0), 2, 1, 1, 1, 1})) {
  case 0: return printer(id, cond, n, "", true, false);
  case 1: return seq(depth, id, cond, n, "", "", "");
  case 2: {   // side by side
    string kids;
    Need all = n;
    for (unsigned k = 2 + choose(3); k--;) {
      Need m = n;
      kids += gen(depth + 1, fresh("n"), "", m);
      all.prior.insert(all.prior.end(), m.prior.begin(), m.prior.end());
      all.notBefore = std::max(all.notBefore, m.notBefore);
    }
    std::sort(all.prior.begin(), all.prior.end());
    all.prior.erase(std::unique(all.prior.begin(), all.prior.end()), all.prior.end());
    n = all;
    return listNode(id, cond, "", kids);
  }
  case 3: {   // waits until a time
    double at = h.t0 + 0.001 * choose(8000), tol = 0.05 * (1 + choose(20));
    n.notBefore = std::max(n.notBefore, at);
    count("probe.wait");
    return node("Empty", id, cond + "<EndCondition>" + timeIs(at, tol) + "</EndCondition>", "");
  }
  case 4: {   // prints into a variable, then prints that
    string s = fresh("s"), a = fresh("n"), b = fresh("n"), x;
    vector<string> t;
    words(x, t);
    if (t.empty()) { x = iv(7); t.push_back("7"); }
    bool pretty = choose(2);
    string txt = join(t, pretty);
    string kids = cmd(a, "<EndCondition><IsKnown>" + strv(s) + "</IsKnown></EndCondition>", strv(s), pretty ? "pprintToString" : "printToString", x);
    if (!h.util) return node("Empty", id, cond, "");
    // a pretty string ends its line itself
    string tok = "L" + std::to_string(h.lines.size());
    n.prior.push_back(newLine(tok + ":" + txt + (pretty ? "" : "."), n));
    kids += cmd(b, "<StartCondition>" + finished(a) + "</StartCondition>", "", "print", sv(tok + ":") + strv(s) + (pretty ? "" : sv(".") + sv("\n")));
    return listNode(id, cond, decl(s, "String"), kids);
  }
  case 5: {   // calls a library
    string lib;
    string k = std::to_string(choose(1000));
    Need m = n;
    string args = makeLib(choose(3) == 0, choose(4) == 0, m, depth + 1, &lib, false, 0);
    if (lib.empty()) return node("Empty", id, cond, "");
    n = m;
    return node("LibraryNodeCall", id, cond, "<NodeBody><LibraryNodeCall><NodeId>" + lib + "</NodeId>" + args + "</LibraryNodeCall></NodeBody>");
  }
  case 6: {   // starts a plan, and perhaps waits for its end
    string lib, nm = fresh("s"), a = fresh("n"), b = fresh("n");
    bool absent = chance(1, 6), follow = !absent && choose(2);
    Need m = n;
    string args = makeLib(!absent && choose(3) == 0, choose(5) == 0, m, depth + 1, &lib, absent, 0);
    if (lib.empty()) return node("Empty", id, cond, "");
    string ps = "<LookupOnChange><Name><StringValue>PlanState</StringValue></Name><Arguments>" + strv(nm) + "</Arguments></LookupOnChange>";
    string kids = cmd(a, "<EndCondition><OR><EQInternal><NodeCommandHandleVariable><NodeId>" + a + "</NodeId></NodeCommandHandleVariable><NodeCommandHandleValue>COMMAND_FAILED</NodeCommandHandleValue></EQInternal><IsKnown>" +
                      strv(nm) + "</IsKnown></OR></EndCondition>", strv(nm), "StartPlan", sv(lib) + sv("p") + args.substr(args.find("<IntegerValue>"), args.find("</IntegerValue>") + 15 - args.find("<IntegerValue>")));
    if (follow) {
      kids += node("Empty", b, "<StartCondition><AND>" + finished(a) + "<EQString>" + ps + sv("FINISHED") + "</EQString></AND></StartCondition>", "");
      n = m;
    }
    count(absent ? "fault.launch_missing" : "probe.launch");
    return listNode(id, cond, decl(nm, "String"), kids);
  }
  case 7: {   // uses a resource, perhaps too much of it
    static const char *const R[] = {"ra", "rb", "rc"};
    string r = R[choose(3)];
    int use = 1 + choose(5);
    auto it = h.res.find(r);
    double max = it == h.res.end() ? 1 : it->second;
    string res = "<ResourceList><Resource><ResourceName>" + sv(r) + "</ResourceName><ResourcePriority>" + iv(1) + "</ResourcePriority><ResourceUpperBound>" + iv(use) + "</ResourceUpperBound></Resource></ResourceList>";
    // two at once may exceed together what each may have: only alone is it certain
    bool ok = use <= max;
    count(ok ? "probe.resource" : "probe.resource_denied");
    return printer(id, cond, n, res, ok || !h.resKnown, !h.resKnown || depth > 0);
  }
  case 8: return node("Empty", id, cond + "<PreCondition><BooleanValue>false</BooleanValue></PreCondition>", "");
  case 9: { Need m = n; return printer(id, cond + "<SkipCondition>" + (cond.empty() ? "<BooleanValue>true</BooleanValue>" : cond.substr(16, cond.size() - 33)) + "</SkipCondition>", m, "", false, false); }
  case 10: return cmd(id, cond, "", "NoSuchCommand", iv(1));
  default: {  // repeats
    string v = fresh("i"), a = fresh("n"), b = fresh("n");
    int k = 1 + choose(4);
    string var = "<IntegerVariable>" + v + "</IntegerVariable>";
    string kids = node("Assignment", a, "<RepeatCondition><LT>" + var + iv(k) + "</LT></RepeatCondition>", "<NodeBody><Assignment>" + var + "<NumericRHS><ADD>" + var + iv(1) + "</ADD></NumericRHS></Assignment></NodeBody>");
    kids += printer(b, "<StartCondition>" + finished(a) + "</StartCondition>", n, "", true, false, var, std::to_string(k));
    return listNode(id, cond, decl(v, "Integer", iv(0)), kids);
  }
  }
}
string wrap(string const &n) { return "<?xml version=\"1.0\"?>\n<PlexilPlan>" + n + "</PlexilPlan>\n"; }
vector<string> s_lopts;
// a library with one parameter; returns the call's alias or argument
string makeLib(bool viaL, bool nested, Need &n, unsigned depth, string *idOut, bool absent, int bad)
{
  H &h = *W;
  string id = "Lib" + std::to_string(h.libs++);
  *idOut = id;
  int val = choose(10000);
  bool launch = false; (void) launch;
  string al = "<Alias><NodeParameter>p</NodeParameter>" + iv(val) + "</Alias>";
  if (absent) return sv("p") + iv(val);
  string in = "<Interface><In>" + decl("p", "Integer", iv(-5)) + "</In></Interface>";
  string pv = "<IntegerVariable>p</IntegerVariable>";
  // where it lies: the first place in the search order is the one which counts
  vector<string> at;
  if (viaL) at.push_back(choose(2) ? "/libs" : h.dirs[choose(h.dirs.size())]);
  else {
    for (auto &d : h.dirs) if (choose(3) == 0) at.push_back(d);
    if (at.empty()) at.push_back(h.dirs[choose(h.dirs.size())]);
  }
  for (size_t i = 0; i < at.size(); ++i) {
    string kids;
    if (i == 0) {
      kids = printer(id + "a", "", n, "", true, false, pv, std::to_string(val));
      if (nested) kids += gen(depth + 1, id + "b", "<StartCondition>" + finished(id + "a") + "</StartCondition>", n);
    }
    else kids = cmd(id + "a", "", "", "print", sv("wrong copy of " + id + "\n"));
    string path = at[i].empty() ? id + ".plx" : at[i] + "/" + id + ".plx";
    h.fs[path].data = wrap(node("NodeList", id, in, "<NodeBody><NodeList>" + kids + "</NodeList></NodeBody>"));
    if (i == 0 && viaL) {
      s_lopts.push_back("-l");
      bool found = std::find(h.dirs.begin(), h.dirs.end(), at[i]) != h.dirs.end();
      // by its path, or by its name where the search finds it
      s_lopts.push_back(found && choose(2) ? (choose(2) ? id : id + ".plx") : choose(2) ? path : path.substr(0, path.size() - 4));
    }
    if (i + 1 < at.size() && i == 0) count("probe.shadowed");
  }
  return al;
}
bool contains(string const &a, string const &b) { return a.find(b) != string::npos; }

// ------------------------------------------------------------------ the viewer
const char EOT = '\4';
void told(string const &m)
{
  NoPreempt np;
  ++W->msgs;
  pugi::xml_document d;
  if (!d.load_buffer(m.data(), m.size()) || !d.document_element() || d.document_element().next_sibling()) violation("viewer-malformed", "the viewer got a message which is not one XML element: " + m.substr(0, 300));
  if (W->block && W->msgs > W->acks + 1) violation("viewer-not-waiting", "the executive did not wait for the viewer although told to");
  pugi::xml_node e = d.document_element();
  string t = e.name();
  if (t == "PlanInfo") {
    ++W->infos;
    if (e.child("ViewerBlocks").text().get() != string(W->block ? "true" : "false")) violation("viewer-info", "the viewer was told the wrong blocking option");
  }
  else if (t == "PlexilPlan") {
    ++W->plans;
    if (W->planRoot.empty()) W->planRoot = e.child("Node").child("NodeId").text().get();
  }
  else if (t == "NodeStateUpdate") {
    string path, st = e.child("NodeState").text().get();
    for (pugi::xml_node n : e.child("NodePath").children("NodeId")) path += (path.empty() ? "" : "/") + string(n.text().get());
    string &old = W->state[path];
    static const char *const OK[] = {"-WAITING", "WAITING-EXECUTING", "WAITING-FINISHED", "WAITING-ITERATION_ENDED", "EXECUTING-FINISHING", "EXECUTING-FAILING", "EXECUTING-ITERATION_ENDED", "EXECUTING-FINISHED",
      "FINISHING-ITERATION_ENDED", "FINISHING-FINISHED", "FINISHING-FAILING", "FAILING-ITERATION_ENDED", "FAILING-FINISHED", "ITERATION_ENDED-WAITING", "ITERATION_ENDED-FINISHED", "FINISHED-INACTIVE", "-FINISHED"};
    string step = (old == "INACTIVE" ? "" : old) + "-" + st;
    bool ok = false;
    for (auto x : OK) ok |= step == x;
    if (!ok) violation("viewer-order", "the viewer was told that " + path + " went from " + (old.empty() ? "INACTIVE" : old) + " to " + st);
    if (!W->plans) violation("viewer-order", "the viewer was told of " + path + " before it was told of a plan");
    old = st;
    count("probe.viewer_update");
  }
  else if (t != "Assignment" && t != "PlexilLibrary") violation("viewer-malformed", "the viewer got an unknown message " + t);
}
void viewer(nanos leaveAt, nanos pace, bool reset)
{
  H &h = *W;
  while (!h.gone) {
    int r = waitUntil("the executive", [&] { return !h.peer->in.empty() || h.peer->closedByProc; }, leaveAt);
    if (h.peer->in.empty() && h.peer->closedByProc) return;
    if (r || now() >= leaveAt) {
      event("viewer leaves");
      count(reset ? "fault.viewer_reset" : "fault.viewer_closed");
      h.gone = true;
      net::peerClose(h.peer, reset);
      return;
    }
    if (pace && chance(1, 3)) { count("fault.viewer_slow"); sleepFor((nanos) choose(10) * pace / 5); }
    if (h.peer->in.empty()) continue;
    size_t n = choose(3) ? h.peer->in.size() : 1 + choose(h.peer->in.size());
    h.buf.append(h.peer->in, 0, n);
    h.peer->in.erase(0, n);
    size_t z;
    while ((z = h.buf.find(EOT)) != string::npos) {
      string m = h.buf.substr(0, z);
      h.buf.erase(0, z + 1);
      told(m);
      if (h.block) { ++h.acks; net::peerSend(h.peer, string(1, EOT)); }
    }
  }
}

void simulated()
{
  static H h0;
  H &h = h0;
  W = &h;
  params.memPreempt = choose(3) ? 1 : 0;
  if (chance(1, 3)) { params.stallMean = 20 + choose(200); params.stallMax = (nanos) (1 + choose(500)) * MS; }
  if (chance(1, 3)) params.timerLate = (nanos) choose(2000) * MS;
  h.t0 = wallNow();
  // ---- where libraries are looked for
  h.dirs.push_back("");
  vector<string> cfgDirs, optDirs;
  for (unsigned k = choose(3); k--;) cfgDirs.push_back("/cfg" + std::to_string(cfgDirs.size()));
  for (unsigned k = choose(3); k--;) optDirs.push_back(choose(2) ? "/dir" + std::to_string(optDirs.size()) : "dir" + std::to_string(optDirs.size()));
  // ---- what goes wrong
  enum { NONE, OPT, PLANFILE, PLANBAD, LIBGONE, LIBBAD, LOPT, NOCONF, CONFROOT, CONFADAPTER, NOTHREAD, NOTIMER, RESBAD, NERR };
  int err = choose(2) ? NONE : 1 + choose(NERR - 1);
  int expect = err == NONE || err == NOCONF || err == RESBAD ? 0 : err == OPT ? 2 : 1;
  if (err == NOCONF) { h.util = h.launcher = false; cfgDirs.clear(); }
  else if (choose(4) == 0) h.launcher = false;
  h.dirs.insert(h.dirs.end(), cfgDirs.begin(), cfgDirs.end());
  h.dirs.insert(h.dirs.end(), optDirs.begin(), optDirs.end());
  // ---- resources
  bool resOpt = choose(2), noRes = !resOpt && choose(4) == 0;
  string resFile = resOpt ? "/res/r.data" : "resource.data", resData;
  bool haveRes = err == RESBAD || choose(2);
  if (haveRes) {
    if (choose(2)) resData += "% comment 3\n\n";
    for (const char *r : {"ra", "rb", "rc"}) if (choose(3)) {
      int m = 1 + choose(5);
      resData += string(choose(2) ? "" : "  ") + r + " " + std::to_string(m) + (choose(2) ? ".0" : "") + "\n";
      if (!noRes) h.res[r] = m;
    }
    if (choose(4) == 0 && !resData.empty()) resData.pop_back();
  }
  if (err == RESBAD) h.resKnown = noRes;
  // ---- the plan
  Need n;
  string plan = seq(0, "root", "", n, "", "", "");
  if (err == LIBGONE || err == LIBBAD) {
    string call = node("LibraryNodeCall", "bad", "", "<NodeBody><LibraryNodeCall><NodeId>LibX</NodeId></LibraryNodeCall></NodeBody>");
    plan = listNode("outer", "", "", choose(2) ? plan + call : call + plan);
    string path = h.dirs[choose(h.dirs.size())];
    path = (path.empty() ? path : path + "/") + "LibX.plx";
    string good = wrap(node("Empty", "LibX", "", ""));
    if (err == LIBBAD) {
      File &f = h.fs[path];
      switch (choose(5)) {
      case 0: f.data = good.substr(0, choose(good.size() - 12)); break;
      case 1: f.data = wrap(node("Empty", "LibY", "", "")); break;
      case 2: f.data = good; f.fault = choose(2) ? FT_DIR : FT_EIO; break;
      case 3: f.data = wrap(node("Empty", "LibX", "<StartCondition><BooleanVariable>nosuch</BooleanVariable></StartCondition>", "")); break;
      default: f.data = wrap(node("Nothing", "LibX", "", ""));
      }
    }
    else if (choose(2)) { h.fs[path].data = good; h.fs[path].fault = choose(2) ? FT_ACCES : FT_MFILE; }
  }
  string planXml = wrap(plan), planName = choose(2) ? "plan.plx" : "/plans/p.xml";
  {
    File &f = h.fs[planName];
    f.data = planXml;
    if (err == PLANFILE)
      switch (choose(6)) {
      case 0: h.fs.erase(planName); break;
      case 1: f.fault = FT_ACCES; break;
      case 2: f.fault = FT_DIR; break;
      case 3: f.fault = FT_EIO; break;
      case 4: f.data.clear(); break;
      default: f.data.resize(choose(f.data.size() - 14));
      }
    if (err == PLANBAD)
      switch (choose(4)) {
      case 0: f.data = "<Plan/>"; break;
      case 1: f.data = "<PlexilPlan/>"; break;
      case 2: f.data = wrap(listNode("o", "", "", plan + node("Assignment", "zz", "", "<NodeBody><Assignment><IntegerVariable>nosuch</IntegerVariable><NumericRHS>" + iv(1) + "</NumericRHS></Assignment></NodeBody>"))); break;
      default: f.data = wrap(node("Strange", "o", "", "")); break;
      }
  }
  // ---- options
  vector<vector<string>> groups;
  if (!resOpt) { if (noRes) groups.push_back({"+r"}); } else groups.push_back({"-r", resFile});
  if (haveRes) {
    File &f = h.fs[resFile];
    f.data = resData;
    if (err == RESBAD)
      switch (choose(4)) {
      case 0: f.fault = FT_DIR; break;
      case 1: f.fault = FT_EIO; break;
      case 2: f.data += "\nrz much\n"; break;
      default: f.data += "\nra 3\nra 4\n"; break;
      }
  }
  // ---- a viewer: asked for on the command line, or in the configuration, or both (then the command line counts)
  string viewerHost = choose(2) ? "localhost" : "viewer.host";
  int viewerPort = choose(2) ? 49100 : 9000;
  bool viewOpt = err != OPT && chance(1, 3), viewCfg = err != NOCONF && chance(1, 6), leaves = chance(1, 3), reset = choose(2);
  nanos pace = choose(2) ? 0 : (nanos) (1 + choose(20)) * 10 * MS, leaveAt = leaves ? now() + (nanos) choose(60) * 100 * MS : NEVER;
  h.viewer = viewOpt || viewCfg;
  string viewElt;
  if (h.viewer) {
    h.refuse = chance(1, 6);
    h.block = choose(2);
    if (choose(2)) net::tcpWindow = choose(2) ? 8 + choose(100) : 1 + choose(3000);
    net::faults.shortWrite = choose(2) ? 0 : 3 + choose(10);
    net::faults.intr = choose(2) ? 0 : 3 + choose(10);
    if (chance(1, 12)) net::faults.resolve = 1;
    if (chance(1, 12)) net::faults.socket = 1;
    net::resolver = [](string const &n) -> uint32_t { return n == "viewer.host" ? 0x0a000001 : 0; };
    net::onConnect = [&h, viewerHost, viewerPort](uint32_t ip, int p, net::Peer *peer) {
      if (ip != (viewerHost == "localhost" ? 0x7f000001u : 0x0a000001u) || p != viewerPort) violation("wrong-viewer", "the program connects to another viewer than it was told to");
      if (h.refuse) { count("fault.no_viewer"); return false; }
      if (h.peer) violation("two-connections", "the program connects to the viewer a second time");
      h.peer = peer;
      return true;
    };
    if (viewOpt) {
      vector<vector<string>> o;
      if (viewerHost != "localhost" || choose(2)) o.push_back({"-h", viewerHost});
      if (viewerPort != 49100 || choose(2)) o.push_back({"-n", std::to_string(viewerPort)});
      if (h.block) o.push_back({"-b"});
      vector<string> g{"-v"};
      for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[choose(i)]);
      for (auto &x : o) g.insert(g.end(), x.begin(), x.end());
      groups.push_back(g);
    }
    if (viewCfg && viewOpt) viewElt = choose(2) ? "<Listener ListenerType=\"LuvListener\" HostName=\"other.host\" Port=\"7\"/>" : "<Listener ListenerType=\"LuvListener\" IgnoreConnectFailure=\"false\"/>";
    else if (viewCfg) viewElt = "<Listener ListenerType=\"LuvListener\" HostName=\"" + viewerHost + "\" Port=\"" + std::to_string(viewerPort) + "\" Blocking=\"" + (h.block ? "true" : "false") + "\"/>";
  }
  bool cfgOpt = choose(2);
  string cfgFile = cfgOpt ? "/etc/config.xml" : "interface-config.xml";
  string cfg = string("<?xml version=\"1.0\"?>\n<Interfaces>");
  {
    vector<string> e;
    e.push_back(choose(2) ? "<Adapter AdapterType=\"Time\"><Timebase Type=\"Posix\"/></Adapter>" : "<Adapter AdapterType=\"Time\"/>");
    e.push_back("<Adapter AdapterType=\"Utility\"/>");
    if (!viewElt.empty()) e.push_back(viewElt);
    if (h.launcher) e.push_back("<Adapter AdapterType=\"Launcher\"/>");
    if (err == CONFADAPTER) e.push_back(choose(2) ? "<Adapter AdapterType=\"NoSuchAdapter\"/>" : choose(2) ? "<Adapter/>" : "<Listener ListenerType=\"NoSuchListener\"/>");
    for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[choose(i)]);
    string paths;
    for (size_t i = 0; i < cfgDirs.size(); ++i) paths += (i ? (choose(2) ? "," : ", ") : "") + cfgDirs[i];
    string pe;
    if (cfgDirs.size() == 2 && choose(2)) pe = "<LibraryNodePath>" + cfgDirs[0] + "</LibraryNodePath><LibraryNodePath>" + cfgDirs[1] + "</LibraryNodePath>";
    else if (!cfgDirs.empty()) pe = "<LibraryNodePath>" + paths + "</LibraryNodePath>";
    e.insert(e.begin() + choose(e.size() + 1), pe);
    for (auto &x : e) cfg += x;
  }
  cfg += "</Interfaces>\n";
  {
    File &f = h.fs[cfgFile];
    f.data = cfg;
    if (err == NOCONF)
      switch (choose(6)) {
      case 0: h.fs.erase(cfgFile); break;
      case 1: f.fault = FT_ACCES; break;
      case 2: f.fault = FT_EIO; break;
      case 3: f.data.clear(); break;
      case 4: f.fault = FT_DIR; break;
      default: h.fs.erase(cfgFile);
      }
    if (err == CONFROOT) f.data = choose(2) ? "<Interface></Interface>" : "<x><Interfaces/></x>";
  }
  if (cfgOpt) groups.push_back({"-c", cfgFile});
  switch (choose(4)) {
  case 0: groups.push_back({"+d"}); break;
  case 1: groups.push_back({"-d", "/etc/debug"}); break;
  default:;
  }
  string dbg = !groups.empty() && groups.back()[0] == "-d" ? "/etc/debug" : "Debug.cfg";
  if (choose(2)) {
    File &f = h.fs[dbg];
    f.data = "# a comment\n:Node:clock\n\n  Assignment\n";
    if (chance(1, 4)) { f.fault = choose(2) ? FT_DIR : FT_EIO; count("fault.debug_config"); }
  }
  for (auto &d : optDirs) groups.push_back({"-L", d});
  for (size_t i = 0; i + 1 < s_lopts.size(); i += 2) groups.push_back({s_lopts[i], s_lopts[i + 1]});
  groups.push_back({"-p", planName});
  if (err == LOPT) {
    string name = "/libs/LibZ.plx";
    if (choose(2)) {
      string good = wrap(node("Empty", "LibZ", "", ""));
      File &f = h.fs[name];
      switch (choose(4)) {
      case 0: f.data = good.substr(0, choose(good.size() - 12)); break;
      case 1: f.data = wrap(node("Empty", "LibY", "", "")); break;
      case 2: f.data = good; f.fault = 1 + choose(4); break;
      default: f.data = wrap(node("Empty", "LibZ", "<StartCondition><BooleanVariable>nosuch</BooleanVariable></StartCondition>", ""));
      }
    }
    groups.push_back({"-l", name});
  }
  // the -L options keep their order; all else may come in any order
  {
    vector<vector<string>> a = groups;
    groups.clear();
    vector<vector<string>> L;
    for (auto &g : a) if (g[0] == "-L") L.push_back(g);
    for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[choose(i)]);
    size_t k = 0;
    for (auto &g : a) groups.push_back(g[0] == "-L" ? L[k++] : g);
  }
  if (err == OPT) {
    static const char *const NEED[] = {"-p", "-l", "-L", "-c", "-d", "-r"};
    auto has = [&](const char *o) { for (auto &g : groups) if (g[0] == o) return true; return false; };
    switch (choose(4)) {
    case 0: { const char *o = NEED[choose(4)]; groups.push_back({o}); break; }
    case 1: groups.insert(groups.begin() + choose(groups.size() + 1), {choose(2) ? "--what" : "-q"}); break;
    case 2: if (has("-d") || has("+d")) groups.push_back({has("+d") ? "-d" : choose(2) ? "-d" : "+d", "x"}); else { groups.push_back({"-d", "a"}); groups.push_back({"-d", "b"}); } break;
    default: if (has("-r") || has("+r")) groups.push_back({has("+r") ? "-r" : choose(2) ? "-r" : "+r", "x"}); else { groups.push_back({"-r", "a"}); groups.push_back({"+r"}); }
    }
  }
  vector<string> args{"universalExec"};
  for (auto &g : groups) for (auto &x : g) args.push_back(x);
  string cl;
  for (auto &x : args) cl += x + " ";
  event("%s (fault %d)", cl.c_str(), err);
  for (auto &f : h.fs) trace(f.first + (f.second.fault ? " [fault " + std::to_string(f.second.fault) + "]" : "") + ":\n" + f.second.data);
  static const char *const EN[] = {"", "options", "plan_file", "plan_wrong", "library_missing", "library_wrong", "library_option", "no_config", "config_root", "config_adapter", "no_thread", "no_timer", "resources"};
  if (err) count((string("fault.") + EN[err]).c_str());
  if (err == NOTHREAD) failThreads = 1;
  if (err == NOTIMER) failTimers = 1;
  // ---- run it
  static Capture capture;
  static Null null;
  std::cout.rdbuf(&capture);
  if (!getenv("SHOWERR")) std::cerr.rdbuf(&null);
  bool done = false;
  static vector<char *> argv;
  for (auto &x : args) argv.push_back(strdup(x.c_str()));
  argv.push_back(nullptr);
  nanos begin = now();
  if (chance(1, 6)) { nanos j = (nanos) choose(5000) * MS; after((nanos) choose(4000) * MS, [j] { jumpClock((int64_t) j); count("fault.clock_jump"); }); }
  h.on = true;
  spawn("main", [&] {
    h.result = universal_main((int) args.size(), argv.data());
    done = true;
  });
  if (h.viewer) spawn("viewer", [&h, leaveAt, pace, reset] { waitUntil("a connection", [&h] { return h.peer || h.result != -99; }, NEVER); if (h.peer) viewer(leaveAt, pace, reset); });
  waitUntil("the program", [&] { return done; }, now() + 600 * SEC);
  if (!done) violation("hang", "the program did not end; threads: " + threadDump());
  h.over = true;
  nanos end = now();
  event("exit status %d", h.result);
  waitIdle(now() + 20 * SEC);
  bool whole = h.peer && !h.gone;
  if (whole) {
    if (!h.peer->closedByProc) violation("viewer-left", "the connection to the viewer is still open after the program ended");
    waitUntil("the viewer to read everything", [&h] { return h.peer->in.empty(); }, now() + 36000 * SEC);
    if (!h.buf.empty() && !h.gone) violation("viewer-malformed", "the viewer got half a message");
  }
  // ---- what it did
  string where = " (" + cl + ")";
  if (h.result != expect) violation("status", "the exit status is " + std::to_string(h.result) + ", expected " + std::to_string(expect) + " [" + EN[err] + "]" + where);
  if (!h.part.empty()) violation("output", "output ends in the middle of a line: " + h.part);
  vector<std::pair<int, size_t>> got;
  bool complete = false, errors = false;
  for (size_t i = 0; i < h.out.size(); ++i) {
    string const &t = h.out[i].text;
    if (complete) violation("output", "output after the plan was said to be complete: " + t);
    if (contains(t, "Plan complete")) { complete = true; errors = !contains(t, "without errors"); continue; }
    if (contains(t, "wrong copy")) violation("library-order", "a library was taken from the wrong place: " + t);
    if (t.empty() || t[0] != 'L' || !isdigit((unsigned char) t[1])) continue;
    int k = atoi(t.c_str() + 1);
    if (expect) violation("ran-in-error", "the plan ran although the program was to refuse it: " + t + where);
    if (k >= (int) h.lines.size() || h.lines[k].text != t) violation("output", "printed \"" + t + "\", expected \"" + (k < (int) h.lines.size() ? h.lines[k].text : "nothing") + "\"");
    Line &l = h.lines[k];
    if (l.seen >= 0) violation("twice", "printed twice: " + t);
    l.seen = (int) i;
    if (h.out[i].wall < l.notBefore - 0.000002) violation("early", "printed before its time: " + t);
    for (int p : l.after) if (h.lines[p].seen < 0 && !h.lines[p].optional) violation("order", "printed before what comes first (" + h.lines[p].text + "): " + t);
  }
  if (!expect) {
    for (auto &l : h.lines) if (l.seen < 0 && !l.optional) violation("lost", "never printed: " + l.text + where);
    if (!complete || errors) violation("status", "the program did not say that the plan is complete without errors" + where);
    if (!h.lines.empty()) nontrivial();
    count("probe.ran");
    if (h.viewer && !h.peer && !h.refuse && !net::faults.resolve && !net::faults.socket) violation("viewer-unused", "the program did not connect to the viewer it was told to connect to" + where);
    if (whole && !h.gone) {
      if (!h.plans || h.infos < h.plans) violation("viewer-plan", "the viewer was not told of the plan" + where);
      if (h.state[h.planRoot] != "FINISHED") violation("viewer-end", "the viewer was not told that " + h.planRoot + " finished" + where);
      for (auto &x : h.state) if (x.second != "FINISHED" && x.second != "INACTIVE") violation("viewer-end", "the viewer was last told of " + x.first + " that it is " + x.second + where);
      count("probe.viewed");
    }
    if (params.stallMean == 0 && !(h.viewer && pace)) {
      // ends when all is done: nothing is left to wait for
      double lastAt = (double) begin / 1e9 + 8 + 0.001;
      if ((double) end / 1e9 > lastAt + 8 + 1.05 + (double) params.timerLate / 1e9 + 1) violation("late-end", "the program went on after everything had ended");
    }
  }
  else {
    nontrivial();
    count("probe.refused");
    if (!h.state.empty()) violation("ran-in-error", "the viewer was told of nodes although the program was to refuse the plan" + where);
  }
  simtime((double) (end - begin) / 1e9);
  cover(scheduleHash());
  finish();
}

struct Cookie { string data; size_t pos = 0; };
ssize_t cookieRead(void *c, char *buf, size_t n)
{
  Cookie *k = (Cookie *) c;
  size_t half = k->data.size() / 2;
  if (k->pos >= half) { errno = EIO; return -1; }
  n = std::min(n, half - k->pos);
  memcpy(buf, k->data.data() + k->pos, n);
  k->pos += n;
  return (ssize_t) n;
}
int cookieSeek(void *c, off64_t *off, int whence)
{
  Cookie *k = (Cookie *) c;
  long p = whence == SEEK_SET ? *off : whence == SEEK_CUR ? (long) k->pos + *off : (long) k->data.size() + *off;
  if (p < 0) { errno = EINVAL; return -1; }
  *off = p;
  k->pos = (size_t) p;
  return 0;
}
int cookieClose(void *c) { delete (Cookie *) c; return 0; }
} // namespace

extern "C" FILE *fopen(const char *path, const char *mode)
{
  static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  if (!W || !W->on) return real(path, mode);
  NoPreempt np;
  ++W->opens;
  string p = path;
  while (p.compare(0, 2, "./") == 0) p.erase(0, 2);
  auto it = W->fs.find(p);
  if (it == W->fs.end()) { errno = ENOENT; return nullptr; }
  File &f = it->second;
  switch (f.fault) {
  case FT_ACCES: errno = EACCES; count("fault.open"); return nullptr;
  case FT_MFILE: errno = EMFILE; count("fault.open"); return nullptr;
  case FT_DIR: count("fault.directory"); return real("/", "r");
  case FT_EIO: {
    count("fault.read");
    Cookie *c = new Cookie;
    c->data = f.data;
    return fopencookie(c, mode, cookie_io_functions_t{cookieRead, nullptr, cookieSeek, cookieClose});
  }
  default:;
  }
  int fd = memfd_create("f", 0);
  if (write(fd, f.data.data(), f.data.size()) < 0) inconclusive("memfd");
  lseek(fd, 0, SEEK_SET);
  return fdopen(fd, "r");
}
extern "C" FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }

int main(int argc, char **argv) { return sim::runnerMain(argc, argv, "main", [] {
  sim::start();
  simulated();
}); }
