// Simulated sockets for controlled threads: virtual descriptors, ports, byte streams with bounded
// buffers, short reads and writes, injected errors, and a ledger of every descriptor.
#ifndef VKERNEL_H
#define VKERNEL_H
#include <stddef.h>
#include <stdint.h>
#include <map>
#include <string>
#include <vector>
namespace vk {
enum Call { kSocket, kSetopt, kBind, kListen, kAccept, kConnect, kRead, kWrite, kClose, kCalls };
struct Config {
  size_t cap = 0;               // bytes a stream holds before a write blocks (0: unbounded)
  bool short_io = false;        // reads and writes may transfer less than possible (env budget)
  unsigned faults = 0;          // bit c: call c may fail (env budget)
  bool eof = false;             // a read may find that the connection was lost (env budget)
  bool transient = false;       // a failed read or write leaves the connection usable
  bool sticky = false;          // a failed read or write fails the same way whenever it is tried again
  int first_fd = 1000;
};
struct Conn { int port = -1; int client_fd = -1, server_fd = -1, client_group = -1, server_group = -1; uint32_t addr = 0; size_t c2s = 0, s2c = 0; bool c2s_refused = false, s2c_refused = false; };   // bytes written each way; whether a write failed
struct FdInfo { int fd; int group; std::string kind; int opened = 0, closed = 0; };
void reset(const Config& c);
const std::vector<Conn>& connections();
const std::vector<FdInfo>& descriptors();
std::string ledger();                  // "" if every descriptor was closed exactly once and nothing stray was touched
std::string stray();                   // "" if no operation used a descriptor not (or no longer) open
bool fault_injected(Call* which = nullptr, int* error = nullptr, int* group = nullptr);   // first injected fault of this execution
bool lost_injected();
int faults_injected();
void end_process(int group);           // the party's process ends: all its descriptors are closed by the system
long calls(Call c);                    // calls made in this execution
long failed_connects();
std::vector<int> listening_ports_used();
const std::vector<std::pair<int, int>>& listened();   // (group, port)
const std::vector<std::pair<int, int>>& dialled();    // (group, port) of successful and failed attempts, without repetition
const std::vector<uint32_t>& dialled_addresses();
}  // namespace vk
#endif
