// Simulated descriptors: UDP and TCP sockets, pipes, poll and name resolution.
// Descriptors from 1000 on are simulated; all others go to the system.
#ifndef SIM_NET_HH
#define SIM_NET_HH
#include "simcore.hh"
#include <functional>
#include <string>

namespace sim {
namespace net {
// each is "one in n", 0: never
struct Faults {
  unsigned socket = 0, bind = 0, connect = 0, send = 0, resolve = 0, pipe = 0, pollIntr = 0, pollSpurious = 0, recv = 0, shortWrite = 0, intr = 0;
  nanos resolveSlow = 0;
};
extern Faults faults;
extern uint64_t sendFaults, openFaults;   // faults which make a send, or the opening of a socket to receive on, fail
// a datagram left a simulated process towards ip:port
extern std::function<void(uint32_t ip, int port, std::string const &)> onSend;
// a datagram reached the port: queued says whether a socket took it
extern std::function<void(int port, std::string const &, bool queued)> onArrive;
// a socket was closed with data nobody had read
extern std::function<void(int port, unsigned datagrams)> onLost;
extern std::function<uint32_t(std::string const &)> resolver; // 0: unknown host
void arrive(int port, std::string const &data);               // a datagram from outside, now
void occupy(int port, bool on);                               // another program owns the port
bool bound(int port);                                         // some socket of ours is bound to it
unsigned openCount();
std::string openList();

// A TCP peer outside, driven by callbacks in the scheduler's time.
struct Peer {
  std::string in;            // bytes which arrived and were not taken yet
  bool open = true;          // our side is connected
  bool closedByProc = false; // the simulated process has closed
  int fd = -1;
};
extern std::function<bool(uint32_t ip, int port, Peer *)> onConnect; // false: refused
extern std::function<void(Peer *)> onData;
void peerSend(Peer *, std::string const &);
void peerClose(Peer *, bool reset);
extern size_t tcpWindow;     // bytes a peer buffers before a send blocks; 0: no limit
}
}
#endif
