#include "simnet.hh"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <vector>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
namespace net {
Faults faults;
uint64_t sendFaults, openFaults;
std::function<void(uint32_t, int, std::string const &)> onSend;
std::function<void(int, std::string const &, bool)> onArrive;
std::function<void(int, unsigned)> onLost;
std::function<uint32_t(std::string const &)> resolver;
std::function<bool(uint32_t, int, Peer *)> onConnect;
std::function<void(Peer *)> onData;
size_t tcpWindow;

enum Kind { UDP, TCP, PIPE_R, PIPE_W };
struct Pipe { std::string data; bool rOpen = true, wOpen = true; };
struct D {
  Kind kind;
  uint64_t gen;
  int port = 0, flags = 0;
  bool reuse = false, connected = false, eof = false, reset = false;
  uint32_t peerIp = 0;
  int peerPort = 0;
  std::deque<std::string> rx;     // datagrams
  std::string stream;             // bytes from the TCP peer
  Peer *peer = nullptr;
  Pipe *pipe = nullptr;
};
static std::map<int, D *> s_fd;
static std::set<int> s_busy;
static uint64_t s_gen;
static const int BASE = 1000;

static D *get(int fd) { auto it = s_fd.find(fd); return it == s_fd.end() ? nullptr : it->second; }
static int fresh(Kind k)
{
  int fd = BASE;
  while (s_fd.count(fd)) ++fd;
  D *d = new D;
  d->kind = k;
  d->gen = ++s_gen;
  s_fd[fd] = d;
  return fd;
}
static bool hit(unsigned n, const char *name)
{
  if (!n || !chance(1, n)) return false;
  count(name);
  event("%s", name);
  return true;
}
static int err(int e) { errno = e; return -1; }
unsigned openCount() { return s_fd.size(); }
std::string openList()
{
  std::string s;
  for (auto &p : s_fd) {
    D *d = p.second;
    s += (s.empty() ? "" : ", ") + std::string(d->kind == UDP ? "UDP socket" : d->kind == TCP ? "TCP socket" : d->kind == PIPE_R ? "read end of a pipe" : "write end of a pipe");
    if (d->port) s += " on port " + std::to_string(d->port);
    if (d->peerPort) s += " to port " + std::to_string(d->peerPort);
  }
  return s;
}
void occupy(int port, bool on) { if (on) s_busy.insert(port); else s_busy.erase(port); }
bool bound(int port) { for (auto &p : s_fd) if (p.second->kind == UDP && p.second->port == port) return true; return false; }
void arrive(int port, std::string const &data)
{
  // of several sockets bound with SO_REUSEADDR the one bound last gets it
  D *best = nullptr;
  for (auto &p : s_fd) if (p.second->kind == UDP && p.second->port == port && (!best || p.second->gen > best->gen)) best = p.second;
  if (best && best->rx.size() >= 64) { count("fault.rx_full"); best = nullptr; }
  if (best) best->rx.push_back(data);
  if (onArrive) onArrive(port, data, best != nullptr);
}
void peerSend(Peer *p, std::string const &s) { D *d = get(p->fd); if (p->open && d && d->peer == p) d->stream += s; }
void peerClose(Peer *p, bool reset)
{
  p->open = false;
  D *d = get(p->fd);
  if (d && d->peer == p) { d->eof = true; d->reset = reset; }
}
static bool readable(D *d)
{
  switch (d->kind) {
  case UDP: return !d->rx.empty();
  case TCP: return !d->stream.empty() || d->eof;
  case PIPE_R: return !d->pipe->data.empty() || !d->pipe->wOpen;
  default: return false;
  }
}
} // net
} // sim
using namespace sim;
using namespace sim::net;
#define SIMFD(fd) (sim::active() && (fd) >= BASE)

extern "C" {
int socket(int dom, int type, int proto)
{
  if (!sim::active()) return syscall(SYS_socket, dom, type, proto);
  yield();
  if (hit(faults.socket, "fault.socket")) { ++openFaults; ++sendFaults; return err(EMFILE); }
  int t = type & 0xff;
  if (dom != AF_INET || (t != SOCK_DGRAM && t != SOCK_STREAM)) return err(EAFNOSUPPORT);
  int fd = fresh(t == SOCK_DGRAM ? UDP : TCP);
  if (type & SOCK_NONBLOCK) get(fd)->flags |= O_NONBLOCK;
  return fd;
}
int setsockopt(int fd, int level, int opt, const void *v, socklen_t n)
{
  if (!SIMFD(fd)) return syscall(SYS_setsockopt, fd, level, opt, v, n);
  D *d = get(fd);
  if (!d) return err(EBADF);
  if (level == SOL_SOCKET && opt == SO_REUSEADDR) d->reuse = *(const int *) v;
  return 0;
}
int bind(int fd, const struct sockaddr *a, socklen_t n)
{
  if (!SIMFD(fd)) return syscall(SYS_bind, fd, a, n);
  yield();
  D *d = get(fd);
  if (!d) return err(EBADF);
  int port = ntohs(((const sockaddr_in *) a)->sin_port);
  if (s_busy.count(port)) { count("fault.port_in_use"); event("port %d is in use", port); ++openFaults; return err(EADDRINUSE); }
  if (hit(faults.bind, "fault.bind")) { ++openFaults; return err(chance(1, 2) ? EACCES : EADDRINUSE); }
  for (auto &p : s_fd)
    if (p.second != d && p.second->kind == d->kind && p.second->port == port && !(p.second->reuse && d->reuse)) return err(EADDRINUSE);
  d->port = port;
  d->gen = ++s_gen;
  event("bind %d", port);
  return 0;
}
int listen(int fd, int n) { if (!SIMFD(fd)) return syscall(SYS_listen, fd, n); return err(EOPNOTSUPP); }
int connect(int fd, const struct sockaddr *a, socklen_t n)
{
  if (!SIMFD(fd)) return syscall(SYS_connect, fd, a, n);
  yield();
  D *d = get(fd);
  if (!d) return err(EBADF);
  if (hit(faults.connect, "fault.connect")) { ++sendFaults; return err(d->kind == UDP ? ENETUNREACH : ECONNREFUSED); }
  auto *s = (const sockaddr_in *) a;
  d->peerIp = ntohl(s->sin_addr.s_addr);
  d->peerPort = ntohs(s->sin_port);
  if (d->kind == TCP) {
    Peer *p = new Peer;
    p->fd = fd;
    if (!onConnect || !onConnect(d->peerIp, d->peerPort, p)) { event("connection refused"); return err(ECONNREFUSED); }
    d->peer = p;
  }
  d->connected = true;
  return 0;
}
static ssize_t tcpWrite(D *d, const char *b, size_t n, int flags)
{
  auto broken = [&]() -> ssize_t {
    bool rst = d->reset;
    d->reset = false;
    if (rst) return err(ECONNRESET);
    if (!(flags & MSG_NOSIGNAL)) raise(SIGPIPE);
    return err(EPIPE);
  };
  if (d->eof && !d->peer->open) return broken();
  if (tcpWindow && d->peer->in.size() >= tcpWindow) {
    if (waitUntil("room to send", [d] { return d->peer->in.size() < tcpWindow || !d->peer->open; }, NEVER, true) == EINTR) return err(EINTR);
    if (!d->peer->open) return broken();
  }
  if (n > 1 && hit(faults.shortWrite, "fault.short_write")) n = 1 + choose(n - 1);
  if (tcpWindow && n > tcpWindow - d->peer->in.size()) n = tcpWindow - d->peer->in.size();
  d->peer->in.append(b, n);
  if (onData) onData(d->peer);
  return n;
}
ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t al)
{
  if (!SIMFD(fd)) return syscall(SYS_sendto, fd, b, n, flags, a, al);
  yield();
  D *d = get(fd);
  if (!d) return err(EBADF);
  if (d->kind == TCP) {
    if (!d->peer) return err(ENOTCONN);
    if (hit(faults.intr, "fault.eintr")) return err(EINTR);
    return tcpWrite(d, (const char *) b, n, flags);
  }
  uint32_t ip = d->peerIp;
  int port = d->peerPort;
  if (a) { ip = ntohl(((const sockaddr_in *) a)->sin_addr.s_addr); port = ntohs(((const sockaddr_in *) a)->sin_port); }
  else if (!d->connected) return err(EDESTADDRREQ);
  if (hit(faults.send, "fault.send")) { ++sendFaults; return err(chance(1, 2) ? ENOBUFS : ENETUNREACH); }
  std::string s((const char *) b, n);
  event("datagram of %zu bytes to %x:%d", n, ip, port);
  if (onSend) onSend(ip, port, s);
  return n;
}
ssize_t send(int fd, const void *b, size_t n, int flags)
{
  if (!SIMFD(fd)) return syscall(SYS_sendto, fd, b, n, flags, nullptr, 0);
  return sendto(fd, b, n, flags, nullptr, 0);
}
ssize_t recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *al)
{
  if (!SIMFD(fd)) return syscall(SYS_recvfrom, fd, b, n, flags, a, al);
  yield();
  D *d = get(fd);
  if (!d) return err(EBADF);
  if (d->kind == UDP && hit(faults.recv, "fault.recv")) return err(chance(1, 2) ? EINTR : ENOMEM);
  if (d->kind == TCP && hit(faults.intr, "fault.eintr")) return err(EINTR);
  if (!readable(d)) {
    if ((flags & MSG_DONTWAIT) || (d->flags & O_NONBLOCK)) return err(EAGAIN);
    if (waitUntil("data on a socket", [fd] { D *d = get(fd); return !d || readable(d); }, NEVER, true) == EINTR) return err(EINTR);
    d = get(fd);
    if (!d) return err(EBADF);
  }
  if (d->kind == TCP) {
    if (d->stream.empty()) { if (d->reset) { d->reset = false; return err(ECONNRESET); } return 0; }
    size_t k = std::min(n, d->stream.size());
    if (k > 1 && chance(1, 4)) k = 1 + choose(k);
    memcpy(b, d->stream.data(), k);
    d->stream.erase(0, k);
    return k;
  }
  std::string s = d->rx.front();
  if (!(flags & MSG_PEEK)) d->rx.pop_front();
  size_t k = std::min(n, s.size());
  memcpy(b, s.data(), k);
  if (a && al) {
    sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_port = htons(4000);
    in.sin_addr.s_addr = htonl(0x0a000009);
    memcpy(a, &in, std::min((size_t) *al, sizeof in));
    *al = sizeof in;
  }
  return flags & MSG_TRUNC ? s.size() : k;
}
ssize_t recv(int fd, void *b, size_t n, int flags)
{
  if (!SIMFD(fd)) return syscall(SYS_recvfrom, fd, b, n, flags, nullptr, nullptr);
  return recvfrom(fd, b, n, flags, nullptr, nullptr);
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
  if (!SIMFD(fd)) return syscall(SYS_recvmsg, fd, m, flags);
  D *d = get(fd);
  if (!d) return err(EBADF);
  std::string big(70000, 0);
  socklen_t al = m->msg_namelen;
  ssize_t r = recvfrom(fd, &big[0], big.size(), flags & ~MSG_TRUNC, (sockaddr *) m->msg_name, m->msg_name ? &al : nullptr);
  if (r < 0) return r;
  m->msg_namelen = m->msg_name ? al : 0;
  m->msg_controllen = 0;
  size_t off = 0;
  for (size_t i = 0; i < m->msg_iovlen; ++i) {
    size_t k = std::min(m->msg_iov[i].iov_len, (size_t) r - off);
    memcpy(m->msg_iov[i].iov_base, big.data() + off, k);
    off += k;
  }
  m->msg_flags = off < (size_t) r ? MSG_TRUNC : 0;
  return flags & MSG_TRUNC ? r : off;
}
ssize_t read(int fd, void *b, size_t n)
{
  if (!SIMFD(fd)) return syscall(SYS_read, fd, b, n);
  D *d = get(fd);
  if (!d) return err(EBADF);
  if (d->kind != PIPE_R) return recvfrom(fd, b, n, 0, nullptr, nullptr);
  yield();
  Pipe *p = d->pipe;
  if (!readable(d)) {
    if (d->flags & O_NONBLOCK) return err(EAGAIN);
    if (waitUntil("data in a pipe", [p] { return !p->data.empty() || !p->wOpen; }, NEVER, true) == EINTR) return err(EINTR);
  }
  size_t k = std::min(n, p->data.size());
  memcpy(b, p->data.data(), k);
  p->data.erase(0, k);
  return k;
}
ssize_t write(int fd, const void *b, size_t n)
{
  if (!SIMFD(fd)) return syscall(SYS_write, fd, b, n);
  D *d = get(fd);
  if (!d) return err(EBADF);
  if (d->kind != PIPE_W) return sendto(fd, b, n, 0, nullptr, 0);
  yield();
  if (!d->pipe->rOpen) { raise(SIGPIPE); return err(EPIPE); }
  d->pipe->data.append((const char *) b, n);
  return n;
}
int close(int fd)
{
  if (!SIMFD(fd)) return syscall(SYS_close, fd);
  yield();
  D *d = get(fd);
  if (!d) { count("probe.close_of_closed"); return err(EBADF); }
  if (d->kind == PIPE_R) d->pipe->rOpen = false;
  if (d->kind == PIPE_W) d->pipe->wOpen = false;
  if (d->kind == UDP && d->port) { event("close %d", d->port); if (onLost) onLost(d->port, d->rx.size()); }
  if (d->peer) { d->peer->closedByProc = true; d->peer->open = false; if (onData) onData(d->peer); }
  s_fd.erase(fd);
  return 0;
}
int shutdown(int fd, int how)
{
  if (!SIMFD(fd)) return syscall(SYS_shutdown, fd, how);
  D *d = get(fd);
  if (!d) return err(EBADF);
  if (d->peer) { d->peer->closedByProc = true; d->eof = true; d->peer->open = false; if (onData) onData(d->peer); }
  return 0;
}
int pipe2(int fds[2], int flags)
{
  if (!sim::active()) return syscall(SYS_pipe2, fds, flags);
  yield();
  if (hit(faults.pipe, "fault.pipe")) { openFaults += 1000000; return err(EMFILE); }
  Pipe *p = new Pipe;
  fds[0] = fresh(PIPE_R);
  fds[1] = fresh(PIPE_W);
  get(fds[0])->pipe = get(fds[1])->pipe = p;
  if (flags & O_NONBLOCK) get(fds[0])->flags = get(fds[1])->flags = O_NONBLOCK;
  return 0;
}
int pipe(int fds[2])
{
  if (!sim::active()) return syscall(SYS_pipe2, fds, 0);
  return pipe2(fds, 0);
}
int fcntl(int fd, int cmd, ...)
{
  va_list va;
  va_start(va, cmd);
  long arg = va_arg(va, long);
  va_end(va);
  if (!SIMFD(fd)) return syscall(SYS_fcntl, fd, cmd, arg);
  D *d = get(fd);
  if (!d) return err(EBADF);
  if (cmd == F_GETFL) return d->flags | O_RDWR;
  if (cmd == F_SETFL) d->flags = arg & O_NONBLOCK;
  return 0;
}
static int pollOnce(struct pollfd *p, nfds_t n)
{
  int r = 0;
  for (nfds_t i = 0; i < n; ++i) {
    p[i].revents = 0;
    if (p[i].fd < 0) continue;
    D *d = get(p[i].fd);
    if (!d) p[i].revents = POLLNVAL;
    else {
      if (d->kind == PIPE_R) {
        if (!d->pipe->data.empty()) p[i].revents |= POLLIN & p[i].events;
        if (!d->pipe->wOpen) p[i].revents |= POLLHUP;
      }
      else if (readable(d)) p[i].revents |= POLLIN & p[i].events;
      if (d->kind != PIPE_R) p[i].revents |= POLLOUT & p[i].events;
    }
    if (p[i].revents) ++r;
  }
  return r;
}
int poll(struct pollfd *p, nfds_t n, int ms)
{
  if (!sim::active() || (n && p[0].fd >= 0 && p[0].fd < BASE)) return syscall(SYS_poll, p, n, ms);
  yield();
  nanos end = ms < 0 ? NEVER : now() + (nanos) ms * MS;
  // a stop and continue of the process, or a handled signal, interrupts the wait
  if (!pollOnce(p, n) && hit(faults.pollIntr, "fault.poll_eintr")) { sleepFor((nanos) choose(10) * 20 * MS); if (!pollOnce(p, n)) return err(EINTR); }
  int w = waitUntil("input", [p, n] { return pollOnce(p, n) > 0; }, end, true);
  if (w == EINTR) { count("fault.poll_signal"); return err(EINTR); }
  return pollOnce(p, n);
}
struct hostent *gethostbyname(const char *name)
{
  static struct hostent h;
  static char *addrs[2];
  static uint32_t addr[2];
  static char *none[1];
  static std::string nm;
  if (faults.resolveSlow && sim::active()) { sleepFor((nanos) choose(8) * faults.resolveSlow / 7); }
  yield();
  if (hit(faults.resolve, "fault.resolve")) { ++sendFaults; h_errno = TRY_AGAIN; return nullptr; }
  uint32_t a = 0;
  struct in_addr ia;
  if (inet_aton(name, &ia)) a = ntohl(ia.s_addr);
  else if (!strcmp(name, "localhost")) a = 0x7f000001;
  else if (resolver) a = resolver(name);
  if (!a) { h_errno = HOST_NOT_FOUND; return nullptr; }
  addr[0] = htonl(a);
  addrs[0] = (char *) addr;
  nm = name;
  h.h_name = &nm[0];
  h.h_aliases = none;
  h.h_addrtype = AF_INET;
  h.h_length = 4;
  h.h_addr_list = addrs;
  return &h;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *n)
{
  if (!SIMFD(fd)) return syscall(SYS_getsockname, fd, a, n);
  D *d = get(fd);
  if (!d) return err(EBADF);
  sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET;
  in.sin_port = htons(d->port);
  memcpy(a, &in, std::min((size_t) *n, sizeof in));
  *n = sizeof in;
  return 0;
}
int getsockopt(int fd, int level, int opt, void *v, socklen_t *n)
{
  if (!SIMFD(fd)) return syscall(SYS_getsockopt, fd, level, opt, v, n);
  if (!get(fd)) return err(EBADF);
  *(int *) v = 0;
  return 0;
}
}
