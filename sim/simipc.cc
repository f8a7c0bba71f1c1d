#include "simipc.hh"
#include <string.h>
namespace bus { Bus *B; }
using namespace bus;
IPC_ERROR_TYPE IPC_errno;
static IPC_RETURN_TYPE fail(IPC_ERROR_TYPE e) { IPC_errno = e; return IPC_Error; }
extern "C" {
IPC_RETURN_TYPE IPC_initialize(void) { yield(); B->inited = true; return IPC_OK; }
IPC_RETURN_TYPE IPC_connectModule(const char *name, const char *)
{
  yield();
  if (B->failConnect && chance(1, B->failConnect)) { B->connectFailed = 1; count("fault.ipc_connect"); event("connection refused"); return fail(IPC_Communication_Error); }
  B->connected = true;
  return IPC_OK;
}
IPC_RETURN_TYPE IPC_disconnect(void) { yield(); B->connected = false; B->subs.clear(); B->inbox.clear(); return IPC_OK; }
int IPC_isConnected(void) { return B->connected; }
int IPC_isMsgDefined(const char *n) { return B->defs.count(n); }
IPC_RETURN_TYPE IPC_defineMsg(const char *n, unsigned, const char *f)
{
  yield();
  if (!B->connected) return fail(IPC_Not_Connected);
  if (!B->defs.count(n)) B->defs[n] = parseFormat(f);
  return IPC_OK;
}
FORMATTER_PTR IPC_msgFormatter(const char *n)
{
  if (!n) violation("null-name", "the formatter of a message without a name is asked for");
  auto it = B->defs.find(n);
  return it == B->defs.end() ? nullptr : it->second;
}
IPC_RETURN_TYPE IPC_freeData(FORMATTER_PTR f, void *d)
{
  auto it = B->live.find(d);
  if (it == B->live.end()) violation("double-free", "a message is freed which was not received or was freed before");
  if (!f || f->text != it->second->text) violation("free-format", "a message of format " + it->second->text + " is freed as " + (f ? f->text : "nothing"));
  vector<size_t> o = layout(it->second);
  for (size_t i = 0; i < f->f.size(); ++i) {
    char *p = (char *) d + o[i];
    if (f->f[i].first == 's') free(*(char **) p);
    if (f->f[i].first == '<') {
      char *a = *(char **) p;
      uint32_t n = *(uint32_t *) ((char *) d + o[f->f[i].second]);
      if (f->elt[i] == 's') for (uint32_t j = 0; j < n; ++j) free(((char **) a)[j]);
      free(a);
    }
  }
  memset(d, 0x5a, o.back());
  free(d);
  B->live.erase(it);
  return IPC_OK;
}
IPC_RETURN_TYPE IPC_subscribeData(const char *n, HANDLER_DATA_TYPE h, void *data)
{
  yield();
  if (!B->connected) return fail(IPC_Not_Connected);
  B->subs[n] = Sub{h, data};
  return IPC_OK;
}
IPC_RETURN_TYPE IPC_unsubscribe(const char *n, HANDLER_TYPE)
{
  yield();
  if (!B->connected) return fail(IPC_Not_Connected);
  B->subs.erase(n);
  return IPC_OK;
}
IPC_RETURN_TYPE IPC_publishData(const char *n, void *data)
{
  yield();
  if (!n) return fail(IPC_Null_Argument);
  if (!B->connected) return fail(IPC_Not_Connected);
  auto it = B->defs.find(n);
  if (it == B->defs.end()) { event("%s is not defined", n); Wire x; x.name = n; B->onFailed(x); return fail(IPC_Message_Not_Defined); }
  Wire w;
  w.name = n;
  unpack((const char *) data, it->second, w);
  if (B->failPublish && !(B->self && !strncmp(n, B->self, strlen(B->self))) && chance(1, B->failPublish)) {
    count("fault.ipc_publish");
    ++B->publishFaults;
    event("publication of %s fails", n);
    B->onFailed(w);
    return fail(IPC_Communication_Error);
  }
  ++B->published;
  B->onPublish(w);
  yield();
  return IPC_OK;
}
IPC_RETURN_TYPE IPC_listenClear(unsigned ms)
{
  if (!B->connected) return fail(IPC_Not_Connected);
  if (waitUntil("ipc", [] { return !B->inbox.empty(); }, now() + (nanos) ms * MS)) return IPC_Timeout;
  while (!B->inbox.empty() && B->connected) {
    Wire w = B->inbox.front();
    B->inbox.pop_front();
    auto it = B->subs.find(w.name);
    if (it == B->subs.end()) continue;
    Sub s = it->second;
    void *d = pack(w, B->defs[w.name]);
    if (B->onDeliver) B->onDeliver(w);
    s.h(nullptr, d, s.data);
    if (B->onDone) B->onDone(w);
    yield();
  }
  return IPC_OK;
}
}
