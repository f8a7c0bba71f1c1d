// A simulated message bus in place of the IPC library and its central server.
// Structures are marshalled by the format strings the program itself declares.
#ifndef SIM_IPC_HH
#define SIM_IPC_HH
#include "simcore.hh"
#include "ipc.h"
#include "ipc-data-formats.h"
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>

struct _FORMAT_TYPE { std::string text; std::vector<std::pair<char, unsigned>> f; std::vector<char> elt; };

namespace bus {
using namespace sim;
using std::string;
using std::vector;
struct Fld { char k = 0; long i = 0; double d = 0; string s; vector<Fld> a; };
struct Wire { string name; vector<Fld> f; };
typedef _FORMAT_TYPE Fmt;

inline char kind(string const &t)
{
  static const std::map<string, char> K = {{"ushort", 'h'}, {"uint", 'u'}, {"int", 'i'}, {"ubyte", 'b'}, {"string", 's'}, {"double", 'd'}};
  auto it = K.find(t);
  if (it == K.end()) violation("bad-format", "a message is declared with the unknown type '" + t + "'");
  return it->second;
}
inline Fmt *parseFormat(string const &text)
{
  Fmt *r = new Fmt;
  r->text = text;
  string t;
  auto add = [&] {
    while (!t.empty() && t[0] == ' ') t.erase(0, 1);
    while (!t.empty() && t.back() == ' ') t.pop_back();
    if (t.empty()) return;
    if (t[0] == '<') {
      size_t c = t.find(':');
      r->f.push_back({'<', (unsigned) atoi(t.c_str() + c + 1) - 1});
      r->elt.push_back(kind(t.substr(1, c - 1)));
    }
    else { r->f.push_back({kind(t), 0}); r->elt.push_back(0); }
    t.clear();
  };
  for (char c : text) if (c == ',' || c == '{' || c == '}') add(); else t += c;
  add();
  return r;
}
inline size_t sizeOf(char k) { return k == 'h' ? 2 : k == 'b' ? 1 : k == 'u' || k == 'i' ? 4 : 8; }
inline void getField(char k, const char *p, Fld &o)
{
  o.k = k;
  switch (k) {
  case 'h': o.i = *(const uint16_t *) p; break;
  case 'b': o.i = *(const unsigned char *) p; break;
  case 'u': o.i = *(const uint32_t *) p; break;
  case 'i': o.i = *(const int32_t *) p; break;
  case 'd': o.d = *(const double *) p; break;
  case 's': if (const char *s = *(const char *const *) p) o.s = s; break;
  }
}
inline void putField(char k, char *p, Fld const &v)
{
  switch (k) {
  case 'h': *(uint16_t *) p = v.i; break;
  case 'b': *(unsigned char *) p = v.i; break;
  case 'u': *(uint32_t *) p = v.i; break;
  case 'i': *(int32_t *) p = v.i; break;
  case 'd': *(double *) p = v.d; break;
  case 's': *(char **) p = strdup(v.s.c_str()); break;
  }
}
inline vector<size_t> layout(Fmt const *f)
{
  vector<size_t> o;
  size_t at = 0;
  for (auto &x : f->f) { size_t n = sizeOf(x.first); at = (at + n - 1) / n * n; o.push_back(at); at += n; }
  o.push_back((at + 7) / 8 * 8);
  return o;
}

struct Sub { HANDLER_DATA_TYPE h; void *data; };
struct Chan { std::deque<Wire> q; nanos last = 0; };
struct Bus {
  bool inited = false, connected = false;
  int connectFailed = 0;
  unsigned failConnect = 0, failPublish = 0;       // one in n
  const char *self = nullptr;                      // publications for this destination never fail
  uint64_t publishFaults = 0, published = 0;
  std::map<string, Fmt *> defs;
  std::map<string, Sub> subs;
  std::map<string, Chan> chans;                    // sender -> messages on their way to the program
  std::deque<Wire> inbox;
  std::map<void *, Fmt *> live;
  nanos maxDelay = 0;
  std::function<void(Wire const &)> onPublish;
  std::function<void(Wire const &)> onFailed;      // a publication was refused
  std::function<void(Wire const &)> onDeliver, onDone;   // around the program's handler of a message
};
extern Bus *B;

inline void *pack(Wire const &w, Fmt *f)
{
  vector<size_t> o = layout(f);
  char *p = (char *) calloc(1, o.back() ? o.back() : 1);
  for (size_t i = 0; i < f->f.size(); ++i) {
    if (i >= w.f.size()) break;
    if (f->f[i].first == '<') {
      size_t n = w.f[i].a.size(), z = sizeOf(f->elt[i]);
      char *a = (char *) calloc(n ? n : 1, z);
      for (size_t j = 0; j < n; ++j) putField(f->elt[i], a + j * z, w.f[i].a[j]);
      *(char **) (p + o[i]) = a;
    }
    else putField(f->f[i].first, p + o[i], w.f[i]);
  }
  B->live[p] = f;
  return p;
}
inline void unpack(const char *p, Fmt *f, Wire &w)
{
  vector<size_t> o = layout(f);
  for (size_t i = 0; i < f->f.size(); ++i) {
    Fld x;
    if (f->f[i].first == '<') {
      x.k = '<';
      const char *a = *(const char *const *) (p + o[i]);
      size_t n = w.f[f->f[i].second].i, z = sizeOf(f->elt[i]);
      for (size_t j = 0; j < n; ++j) { Fld e; getField(f->elt[i], a + j * z, e); x.a.push_back(e); }
    }
    else getField(f->f[i].first, p + o[i], x);
    w.f.push_back(x);
  }
}
// A message on its way to the program; those of one sender stay in order.
inline void toExec(string const &sender, Wire const &w, nanos delay)
{
  Chan &c = B->chans[sender];
  nanos t = now() + delay;
  if (t < c.last) t = c.last;
  c.last = t;
  c.q.push_back(w);
  at(t, [sender] {
    Chan &c = B->chans[sender];
    Wire w = c.q.front();
    c.q.pop_front();
    if (B->connected && B->subs.count(w.name)) B->inbox.push_back(w);
  });
}
inline bool idle()
{
  for (auto &c : B->chans) if (!c.second.q.empty()) return false;
  return B->inbox.empty();
}
}
#endif
