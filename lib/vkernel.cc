#include "vkernel.h"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/time.h>
#include <signal.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <memory>
#include <set>

#include "vsched.h"
#include "vh.h"

namespace {
using namespace vk;
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
struct Stream { std::deque<unsigned char> q; bool writer_closed = false, reader_closed = false, reset = false; size_t total = 0; };
struct Sock {
  int fd; int group; bool open = true; enum { kFresh, kBound, kListening, kConnected } st = kFresh; int port = -1; bool reuse = false;
  std::shared_ptr<Stream> in, out; std::deque<int> pending; int backlog = 0; int conn = -1; bool broken = false;
  bool abort_on_close = false, nonblock = false, recv_timeout = false, send_timeout = false; int read_error = 0, write_error = 0;   // sticky
};
struct Kernel {
  Config c; std::map<int, std::unique_ptr<Sock>> socks; std::vector<Conn> conns; std::vector<FdInfo> fds; std::vector<std::string> strays; int next = 1000;
  std::map<int, int> listeners;   // port -> fd
  long calls[kCalls] = {0}; int nfaults = 0; bool fault = false, lost = false; Call fcall = kCalls; int ferr = 0, fgroup = -1; long failed = 0;
  std::vector<std::pair<int, int>> listened, dialled; std::vector<uint32_t> addrs;
};
Kernel K;
const char* names[] = {"socket", "setsockopt", "bind", "listen", "accept", "connect", "read", "write", "close"};
bool on() { return sched::controlled(); }
bool is_virtual(int fd) { return fd >= K.c.first_fd; }
FdInfo& info(int fd) { return K.fds[(size_t)(fd - K.c.first_fd)]; }
int err(int e) { errno = e; return -1; }
void add_stray(const std::string& s) { if (K.strays.size() < 20) K.strays.push_back(s); }
int new_fd(const char* kind, std::unique_ptr<Sock>& s) {
  int fd = K.next++; s->fd = fd; s->group = sched::group(); K.fds.push_back({fd, s->group, kind, 1, 0}); K.socks[fd] = std::move(s); return fd;
}
Sock* find(int fd, const char* what) {
  if (fd < 0) { add_stray(std::string(what) + " on descriptor " + std::to_string(fd)); return nullptr; }
  auto it = K.socks.find(fd);
  if (it == K.socks.end() || !it->second->open) { add_stray(std::string(what) + " on descriptor " + std::to_string(fd) + ", which is not open"); return nullptr; }
  return it->second.get();
}
// 0, or an injected error
int inject(Call c, std::initializer_list<int> errors) {
  K.calls[c]++;
  if (!(K.c.faults >> c & 1)) return 0;
  int k = sched::choose((int)errors.size() + 1, names[c]);
  if (!k) return 0;
  int e = *(errors.begin() + k - 1);
  K.nfaults++;
  if (!K.fault) { K.fault = true; K.fcall = c; K.ferr = e; K.fgroup = sched::group(); }
  return e;
}
void io(uintptr_t a, uintptr_t b, const char* what, const std::function<bool()>* ready = nullptr) { sched::operation(sched::kIo, a, b, what, ready); }
uintptr_t port_key(int p) { return 0x100000 + (uintptr_t)p; }
// descriptor of the caller's kind of use: not virtual, not a standard stream -> real
bool real(int fd) { return fd > 2 && !is_virtual(fd); }

// the connection breaks: what has arrived can still be read, nothing more is transferred
void tear(Sock* s) { s->in->reset = s->out->reset = true; s->in->reader_closed = s->out->reader_closed = true; s->in->writer_closed = s->out->writer_closed = true; }
int v_socket() { SchedQuiet quiet_;
  io(0, 0, "socket");
  if (int e = inject(kSocket, {EMFILE})) return err(e);
  auto s = std::make_unique<Sock>();
  sched::kernel_event(false);
  return new_fd("socket", s);
}
int v_setopt(int fd, int level, int opt, const void* v, socklen_t n) { SchedQuiet quiet_;
  Sock* s = find(fd, "setsockopt"); if (!s) return err(EBADF);
  if (int e = inject(kSetopt, {ENOPROTOOPT})) return err(e);
  if (level == SOL_SOCKET && (opt == SO_REUSEADDR || opt == SO_REUSEPORT) && v && n >= sizeof(int) && *(const int*)v) s->reuse = true;
  if (level == SOL_SOCKET && opt == SO_LINGER && v && n >= sizeof(linger)) { const linger* l = (const linger*)v; s->abort_on_close = l->l_onoff && !l->l_linger; }
  if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && v && n >= sizeof(timeval)) { const timeval* t = (const timeval*)v; (opt == SO_RCVTIMEO ? s->recv_timeout : s->send_timeout) = t->tv_sec || t->tv_usec; }
  return 0;
}
int v_bind(int fd, const struct sockaddr* a, socklen_t n) { SchedQuiet quiet_;
  Sock* s = find(fd, "bind"); if (!s) return err(EBADF);
  if (int e = inject(kBind, {EADDRINUSE})) return err(e);
  if (n < sizeof(sockaddr_in) || a->sa_family != AF_INET || s->st != Sock::kFresh) return err(EINVAL);
  int p = ntohs(((const sockaddr_in*)a)->sin_port);
  for (auto& kv : K.socks) if (kv.second->open && kv.second->port == p && (kv.second->st == Sock::kBound || kv.second->st == Sock::kListening) && !(kv.second->reuse && s->reuse)) return err(EADDRINUSE);
  s->port = p; s->st = Sock::kBound;
  return 0;
}
int v_listen(int fd, int backlog) { SchedQuiet quiet_;
  Sock* s = find(fd, "listen"); if (!s) return err(EBADF);
  io(port_key(s->port), 0, "listen");
  s = find(fd, "listen"); if (!s) return err(EBADF);
  if (int e = inject(kListen, {EADDRINUSE})) return err(e);
  if (s->st != Sock::kBound) return err(EINVAL);
  s->st = Sock::kListening; s->backlog = std::max(backlog, 0) + 1; K.listeners[s->port] = fd; K.listened.push_back({s->group, s->port});
  sched::kernel_event(true);
  return 0;
}
int v_accept(int fd, struct sockaddr* a, socklen_t* n) { SchedQuiet quiet_;
  Sock* s = find(fd, "accept"); if (!s) return err(EBADF);
  if (s->st != Sock::kListening) return err(EINVAL);
  if (int e = inject(kAccept, {ECONNABORTED})) return err(e);
  if (s->pending.empty() && (s->nonblock || (s->recv_timeout && sched::choose(2, "accept timeout")))) return err(EAGAIN);
  std::function<bool()> ready = [s] { return !s->open || !s->pending.empty(); };
  io(port_key(s->port), 0, "accept", &ready);
  if (!s->open) { add_stray("accept on a descriptor closed meanwhile"); return err(EBADF); }
  int ci = s->pending.front(); s->pending.pop_front();
  Conn& c = K.conns[(size_t)ci]; Sock* peer = K.socks[c.client_fd].get();
  auto x = std::make_unique<Sock>(); x->st = Sock::kConnected; x->in = peer->out; x->out = peer->in; x->conn = ci;
  int r = new_fd("accept", x); c.server_fd = r; c.server_group = sched::group();
  if (a && n && *n >= sizeof(sockaddr_in)) { sockaddr_in v; memset(&v, 0, sizeof v); v.sin_family = AF_INET; v.sin_port = htons(40000 + ci); v.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(a, &v, sizeof v); *n = sizeof v; }
  sched::kernel_event(false);
  return r;
}
int v_connect(int fd, const struct sockaddr* a, socklen_t n) { SchedQuiet quiet_;
  Sock* s = find(fd, "connect"); if (!s) return err(EBADF);
  if (n < sizeof(sockaddr_in) || a->sa_family != AF_INET) return err(EINVAL);
  const sockaddr_in* v = (const sockaddr_in*)a; int p = ntohs(v->sin_port); uint32_t addr = ntohl(v->sin_addr.s_addr);
  auto lst = [p]() -> Sock* { auto it = K.listeners.find(p); if (it == K.listeners.end()) return nullptr; Sock* l = K.socks[it->second].get(); return l->open && l->st == Sock::kListening ? l : nullptr; };
  std::function<bool()> ready = [&] { Sock* l = lst(); return !s->open || !l || (int)l->pending.size() < l->backlog; };
  io(port_key(p), 0, "connect", &ready);
  if (!s->open) { add_stray("connect on a descriptor closed meanwhile"); return err(EBADF); }
  std::pair<int, int> d(s->group, p); if (std::find(K.dialled.begin(), K.dialled.end(), d) == K.dialled.end()) { K.dialled.push_back(d); K.addrs.push_back(addr); }
  if (int e = inject(kConnect, {ECONNREFUSED, ETIMEDOUT, EINTR})) { K.failed++; return err(e); }
  if (s->st == Sock::kConnected) return err(EISCONN);
  Sock* l = lst();
  if (!l) { K.failed++; return err(ECONNREFUSED); }
  s->st = Sock::kConnected; s->in = std::make_shared<Stream>(); s->out = std::make_shared<Stream>(); s->conn = (int)K.conns.size();
  Conn c; c.port = p; c.client_fd = fd; c.client_group = s->group; c.addr = addr; K.conns.push_back(c); l->pending.push_back(s->conn);
  sched::kernel_event(false);
  return 0;
}
ssize_t v_read(int fd, void* buf, size_t n, int flags = 0) {
  if (race_memory) race_memory(buf, n, 1);
  SchedQuiet quiet_;
  Sock* s = find(fd, "read"); if (!s) return err(EBADF);
  if (s->st != Sock::kConnected) { K.calls[kRead]++; return err(ENOTCONN); }
  if (s->read_error) { io(0, 0, "read again after an error"); return err(s->read_error); }
  if (int e = K.c.sticky ? inject(kRead, {ECONNRESET, ETIMEDOUT, EIO, ENOTCONN, EHOSTUNREACH, ENOMEM}) : inject(kRead, {ECONNRESET, ETIMEDOUT, EIO})) { if (K.c.sticky) s->read_error = e; if (!K.c.transient) tear(s); return err(e); }
  auto in = s->in;
  if (K.c.eof && !s->broken && sched::choose(2, "connection lost")) {
    K.lost = true; K.nfaults++; in->writer_closed = true; in->q.clear(); s->out->reader_closed = true; s->out->reset = true; in->reader_closed = true; s->out->writer_closed = true;
  }
  std::function<bool()> ready = [s, in] { return !s->open || !in->q.empty() || in->writer_closed || in->reset; };
  if (n && !ready()) {            // nothing there: not everybody waits
    if (s->nonblock || (flags & MSG_DONTWAIT)) { io((uintptr_t)in.get(), 0, "read without waiting"); if (!ready()) return err(EAGAIN); }
    else if (s->recv_timeout && sched::choose(2, "read timeout")) return err(EAGAIN);
  }
  if (n) io((uintptr_t)in.get(), 0, "read", &ready);
  if (!s->open) { add_stray("a descriptor is closed while a read waits on it"); return err(EBADF); }
  if (!n) return 0;
  if (in->q.empty()) return in->reset ? err(ECONNRESET) : 0;
  size_t k = std::min(n, in->q.size());
  if (K.c.short_io && k > 1 && sched::choose(2, "short read")) k = 1;
  for (size_t i = 0; i < k; i++) ((unsigned char*)buf)[i] = in->q[i];
  if (flags & MSG_PEEK) return (ssize_t)k;
  in->q.erase(in->q.begin(), in->q.begin() + (long)k);
  sched::kernel_event(false);
  return (ssize_t)k;
}
// a broken pipe: an error if SIGPIPE was turned off for this call or altogether, otherwise the end of the process
ssize_t broken_pipe(bool nosignal) {
  struct sigaction a; sigset_t m; sigemptyset(&m); pthread_sigmask(SIG_BLOCK, nullptr, &m);
  if (!nosignal && !sigismember(&m, SIGPIPE) && !sigaction(SIGPIPE, nullptr, &a) && !(a.sa_flags & SA_SIGINFO) && a.sa_handler == SIG_DFL)
    vh::fail("party %d writes to a connection that the other end has closed: SIGPIPE ends its process, nothing is reported | schedule: %s", sched::group(), sched::schedule().c_str());
  return err(EPIPE);
}
void refused(Sock* s) { Conn& c = K.conns[(size_t)s->conn]; (c.client_fd == s->fd ? c.c2s_refused : c.s2c_refused) = true; }
ssize_t v_write(int fd, const void* buf, size_t n, bool nosignal, int flags = 0) {
  if (race_memory) race_memory(buf, n, 0);
  SchedQuiet quiet_;
  Sock* s = find(fd, "write"); if (!s) return err(EBADF);
  if (s->st != Sock::kConnected) { K.calls[kWrite]++; return err(ENOTCONN); }
  if (s->write_error) { io(0, 0, "write again after an error"); return err(s->write_error); }
  if (int e = K.c.sticky ? inject(kWrite, {ECONNRESET, ETIMEDOUT, EIO, ENOBUFS, EHOSTUNREACH, ENOMEM}) : inject(kWrite, {ECONNRESET, EPIPE, EIO})) { if (K.c.sticky) s->write_error = e; if (!K.c.transient) tear(s); refused(s); return e == EPIPE ? broken_pipe(nosignal) : err(e); }
  auto out = s->out; size_t cap = K.c.cap;
  std::function<bool()> ready = [s, out, cap] { return !s->open || out->reader_closed || !cap || out->q.size() < cap; };
  if (!ready()) {
    if (s->nonblock || (flags & MSG_DONTWAIT)) { io((uintptr_t)out.get(), 0, "write without waiting"); if (!ready()) return err(EAGAIN); }
    else if (s->send_timeout && sched::choose(2, "write timeout")) return err(EAGAIN);
  }
  io((uintptr_t)out.get(), 0, "write", &ready);
  if (!s->open) { add_stray("a descriptor is closed while a write waits on it"); return err(EBADF); }
  if (out->reader_closed || out->writer_closed) { refused(s); return broken_pipe(nosignal); }
  size_t k = cap ? std::min(n, cap - out->q.size()) : n;
  if (K.c.short_io && k > 1 && sched::choose(2, "short write")) k = 1;
  out->q.insert(out->q.end(), (const unsigned char*)buf, (const unsigned char*)buf + k); out->total += k;
  Conn& c = K.conns[(size_t)s->conn]; (c.client_fd == fd ? c.c2s : c.s2c) += k;
  sched::kernel_event(false);
  return (ssize_t)k;
}
void drop(Sock* s) {
  if (s->st == Sock::kConnected) {
    s->out->writer_closed = true; s->in->reader_closed = true;
    if (!s->in->q.empty()) s->out->reset = true;      // closing with unread data resets the connection
    if (s->abort_on_close) { s->out->reset = true; s->out->q.clear(); }   // and this throws away what is still on its way
  }
  if (s->st == Sock::kListening) { K.listeners.erase(s->port); for (int ci : s->pending) { Sock* c = K.socks[K.conns[(size_t)ci].client_fd].get(); c->in->writer_closed = true; c->in->reset = true; c->out->reader_closed = true; } s->pending.clear(); }
}
int v_close(int fd) { SchedQuiet quiet_;
  if (fd >= K.c.first_fd && fd < K.next) info(fd).closed++;
  Sock* s = find(fd, "close"); if (!s) return err(EBADF);
  io(s->st == Sock::kConnected ? (uintptr_t)s->in.get() : s->port >= 0 ? port_key(s->port) : 0, s->st == Sock::kConnected ? (uintptr_t)s->out.get() : 0, "close");
  s = find(fd, "close"); if (!s) return err(EBADF);
  int e = inject(kClose, {EIO});
  s->open = false; drop(s);        // the descriptor is gone even if close reports an error
  sched::kernel_event(false);
  return e ? err(e) : 0;
}
}  // namespace

namespace vk {
void reset(const Config& c) { K = Kernel(); K.c = c; K.next = c.first_fd; }
const std::vector<Conn>& connections() { return K.conns; }
const std::vector<FdInfo>& descriptors() { return K.fds; }
std::string stray() { std::string s; for (auto& x : K.strays) s += (s.empty() ? "" : "; ") + x; return s; }
std::string ledger() {
  std::string s = stray();
  for (auto& f : K.fds) if (f.closed != 1) s += (s.empty() ? "" : "; ") + std::string("descriptor ") + std::to_string(f.fd) + " (" + f.kind + ", party " + std::to_string(f.group) + ") was closed " + std::to_string(f.closed) + " times";
  return s;
}
bool fault_injected(Call* w, int* e, int* g) { if (w) *w = K.fcall; if (e) *e = K.ferr; if (g) *g = K.fgroup; return K.fault; }
bool lost_injected() { return K.lost; }
int faults_injected() { return K.nfaults; }
void end_process(int group) {
  SchedQuiet quiet_;
  for (auto& kv : K.socks) if (kv.second->open && kv.second->group == group) { kv.second->open = false; drop(kv.second.get()); }
  sched::kernel_event(false);
}
long calls(Call c) { return K.calls[c]; }
long failed_connects() { return K.failed; }
const std::vector<std::pair<int, int>>& listened() { return K.listened; }
const std::vector<std::pair<int, int>>& dialled() { return K.dialled; }
const std::vector<uint32_t>& dialled_addresses() { return K.addrs; }
}  // namespace vk

extern "C" {
int socket(int d, int t, int p) { return on() ? v_socket() : (int)raw(SYS_socket, d, t, p); }
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) { return on() && !real(fd) ? v_setopt(fd, l, o, v, n) : (int)raw(SYS_setsockopt, fd, l, o, (long)v, n); }
int bind(int fd, const struct sockaddr* a, socklen_t n) { return on() && !real(fd) ? v_bind(fd, a, n) : (int)raw(SYS_bind, fd, (long)a, n); }
int listen(int fd, int b) { return on() && !real(fd) ? v_listen(fd, b) : (int)raw(SYS_listen, fd, b); }
int accept(int fd, struct sockaddr* a, socklen_t* n) { return on() && !real(fd) ? v_accept(fd, a, n) : (int)raw(SYS_accept, fd, (long)a, (long)n); }
int accept4(int fd, struct sockaddr* a, socklen_t* n, int f) { return on() && !real(fd) ? v_accept(fd, a, n) : (int)raw(SYS_accept4, fd, (long)a, (long)n, f); }
int connect(int fd, const struct sockaddr* a, socklen_t n) { return on() && !real(fd) ? v_connect(fd, a, n) : (int)raw(SYS_connect, fd, (long)a, n); }
ssize_t read(int fd, void* b, size_t n) { return on() && !real(fd) ? v_read(fd, b, n) : raw(SYS_read, fd, (long)b, (long)n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { return on() && !real(fd) && fd != 1 && fd != 2 ? v_write(fd, b, n, false) : raw(SYS_write, fd, (long)b, (long)n); }
ssize_t recvfrom(int fd, void* b, size_t n, int f, struct sockaddr* a, socklen_t* l) {
  if (!(on() && !real(fd))) return raw(SYS_recvfrom, fd, (long)b, (long)n, f, (long)a, (long)l);
  if ((f & MSG_WAITALL) && !(f & (MSG_PEEK | MSG_DONTWAIT))) { size_t o = 0; while (o < n) { ssize_t k = v_read(fd, (char*)b + o, n - o); if (k < 0) return o ? (ssize_t)o : k; if (!k) break; o += (size_t)k; } return (ssize_t)o; }
  return v_read(fd, b, n, f);
}
ssize_t recv(int fd, void* b, size_t n, int f) { return recvfrom(fd, b, n, f, nullptr, nullptr); }
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int f) { return recvfrom(fd, b, n, f, nullptr, nullptr); }
ssize_t sendto(int fd, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t l) { return on() && !real(fd) ? v_write(fd, b, n, f & MSG_NOSIGNAL, f) : raw(SYS_sendto, fd, (long)b, (long)n, f, (long)a, l); }
ssize_t send(int fd, const void* b, size_t n, int f) { return sendto(fd, b, n, f, nullptr, 0); }
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (!(on() && !real(fd) && fd != 1 && fd != 2)) return raw(SYS_writev, fd, (long)v, n);
  ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t k = v_write(fd, v[i].iov_base, v[i].iov_len, false); if (k < 0) return t ? t : k; t += k; if ((size_t)k < v[i].iov_len) break; }
  return t;
}
ssize_t readv(int fd, const struct iovec* v, int n) {
  if (!(on() && !real(fd))) return raw(SYS_readv, fd, (long)v, n);
  for (int i = 0; i < n; i++) if (v[i].iov_len) return v_read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t sendmsg(int fd, const struct msghdr* m, int f) {
  if (!(on() && !real(fd))) return raw(SYS_sendmsg, fd, (long)m, f);
  ssize_t t = 0; for (size_t i = 0; i < m->msg_iovlen; i++) { const struct iovec& v = m->msg_iov[i]; if (!v.iov_len) continue; ssize_t k = v_write(fd, v.iov_base, v.iov_len, f & MSG_NOSIGNAL); if (k < 0) return t ? t : k; t += k; if ((size_t)k < v.iov_len) break; }
  return t;
}
ssize_t recvmsg(int fd, struct msghdr* m, int f) { return on() && !real(fd) ? readv(fd, m->msg_iov, (int)m->msg_iovlen) : raw(SYS_recvmsg, fd, (long)m, f); }
int shutdown(int fd, int how) {
  SchedQuiet quiet_;
  if (!(on() && !real(fd))) return (int)raw(SYS_shutdown, fd, how);
  Sock* s = find(fd, "shutdown"); if (!s) return err(EBADF);
  if (s->st != Sock::kConnected) return err(ENOTCONN);
  io((uintptr_t)s->in.get(), (uintptr_t)s->out.get(), "shutdown");
  if (how != SHUT_RD) s->out->writer_closed = true;
  if (how != SHUT_WR) s->in->writer_closed = true;
  sched::kernel_event(false);
  return 0;
}
int getsockopt(int fd, int l, int o, void* v, socklen_t* n) {
  if (!(on() && !real(fd))) return (int)raw(SYS_getsockopt, fd, l, o, (long)v, (long)n);
  SchedQuiet quiet_;
  if (!find(fd, "getsockopt")) return err(EBADF);
  if (v && n) memset(v, 0, *n);
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list l; va_start(l, cmd); long a = va_arg(l, long); va_end(l);
  if (!(on() && !real(fd)) || fd <= 2) return (int)raw(SYS_fcntl, fd, cmd, a);
  SchedQuiet quiet_;
  Sock* s = find(fd, "fcntl"); if (!s) return err(EBADF);
  if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) s->nonblock = a & O_NONBLOCK;
  return cmd == F_GETFD || cmd == F_SETFD || cmd == F_SETFL ? 0 : err(EINVAL);
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
  bool virt = false; for (nfds_t i = 0; i < n; i++) virt |= p[i].fd >= 0 && !real(p[i].fd) && p[i].fd > 2;
  if (!on() || !virt) return (int)raw(SYS_poll, (long)p, (long)n, timeout);
  SchedQuiet quiet_;
  auto test = [&] {
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0; if (p[i].fd < 0) continue;
      auto it = K.socks.find(p[i].fd); Sock* s = it == K.socks.end() || !it->second->open ? nullptr : it->second.get();
      if (!s) p[i].revents = POLLNVAL;
      else if (s->st == Sock::kListening) p[i].revents = s->pending.empty() ? 0 : POLLIN & p[i].events;
      else if (s->st == Sock::kConnected) {
        if (!s->in->q.empty() || s->in->writer_closed || s->in->reset) p[i].revents |= POLLIN & p[i].events;
        if (s->out->reader_closed || s->out->writer_closed || !K.c.cap || s->out->q.size() < K.c.cap) p[i].revents |= POLLOUT & p[i].events;
        if (s->in->reset) p[i].revents |= POLLERR;
      }
      k += p[i].revents != 0;
    }
    return k;
  };
  if (!test() && timeout >= 0 && (timeout == 0 || sched::choose(2, "poll timeout"))) { io(0, 0, "poll"); return test(); }
  auto it = K.socks.find(p[0].fd); Sock* s = it == K.socks.end() ? nullptr : it->second.get();
  std::function<bool()> ready = [&] { return test() > 0; };
  io(s && s->st == Sock::kConnected ? (uintptr_t)s->in.get() : s && s->port >= 0 ? port_key(s->port) : 0, s && s->st == Sock::kConnected ? (uintptr_t)s->out.get() : 0, "poll", &ready);
  return test();
}
int close(int fd) {
  if (!on() || real(fd)) return (int)raw(SYS_close, fd);
  if (fd >= 0 && fd <= 2) { add_stray("close of descriptor " + std::to_string(fd) + ", which the network did not open"); return 0; }
  return v_close(fd);
}
}
