// Loopback sockets for the drivers of networked modules: a network of the process's own where the
// system allows it, raw sockets, and a relay which fragments what passes through it.
#ifndef VERIF_NET_H_
#define VERIF_NET_H_
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <net/if.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cerrno>
#include <cstring>
#include <string>
#include "vsched.h"

namespace net {
inline bool& Own() {
  static bool own = false;
  return own;
}
inline void Isolate() {
  if (unshare(CLONE_NEWUSER | CLONE_NEWNET)) return;
  int s = socket(AF_INET, SOCK_DGRAM, 0);
  struct ifreq r;
  memset(&r, 0, sizeof r);
  strcpy(r.ifr_name, "lo");
  ioctl(s, SIOCGIFFLAGS, &r);
  r.ifr_flags |= IFF_UP;
  Own() = !ioctl(s, SIOCSIFFLAGS, &r);
  close(s);
}
inline bool V6() {
  static int ok = -1;
  if (ok < 0) {
    int s = socket(AF_INET6, SOCK_STREAM, 0);
    ok = s >= 0;
    if (s >= 0) close(s);
  }
  return ok;
}
inline socklen_t Addr(struct sockaddr_storage* a, int port) {
  memset(a, 0, sizeof *a);
  if (V6()) {
    auto p = reinterpret_cast<struct sockaddr_in6*>(a);
    p->sin6_family = AF_INET6;
    p->sin6_addr = in6addr_loopback;
    p->sin6_port = htons(uint16_t(port));
    return sizeof *p;
  }
  auto p = reinterpret_cast<struct sockaddr_in*>(a);
  p->sin_family = AF_INET;
  p->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  p->sin_port = htons(uint16_t(port));
  return sizeof *p;
}
inline int Listen(int port, bool reuse = true) {  // -1 if it can't
  int s = socket(V6() ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
  if (reuse) setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  struct sockaddr_storage a;
  socklen_t n = Addr(&a, port);
  if (bind(s, reinterpret_cast<struct sockaddr*>(&a), n) || listen(s, 64)) {
    close(s);
    return -1;
  }
  return s;
}
inline int Port(int s) {
  struct sockaddr_storage a;
  socklen_t n = sizeof a;
  getsockname(s, reinterpret_cast<struct sockaddr*>(&a), &n);
  return ntohs(a.ss_family == AF_INET6 ? reinterpret_cast<struct sockaddr_in6*>(&a)->sin6_port
                                       : reinterpret_cast<struct sockaddr_in*>(&a)->sin_port);
}
inline int Connect(int port) {  // -1 if refused
  int s = socket(V6() ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
  setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  struct sockaddr_storage a;
  socklen_t n = Addr(&a, port);
  if (connect(s, reinterpret_cast<struct sockaddr*>(&a), n)) {
    close(s);
    return -1;
  }
  return s;
}
inline void Reset(int s) {
  struct linger l = {1, 0};
  setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  close(s);
}

// how much of a transfer of n bytes takes place at once, decided by the schedule
inline size_t Some(size_t n) {
  if (!sched::Active() || n <= 1) return n;
  sched::NoSwitch g;
  switch (sched::Rand(4)) {
    case 0: return n;
    case 1: return n > 4096 ? n : 1 + sched::Rand(n < 6 ? n : 6);
    default: {
      size_t lo = n > 4096 ? n / 4 : 0;
      return lo + 1 + sched::Rand(n - lo);
    }
  }
}
inline void SmallBuffers(int s) {
  int n = 4096;
  setsockopt(s, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
}

// Passes bytes between two sockets in pieces.
struct Relay {
  int fd[2] = {-1, -1};
  std::string buf[2];  // read from fd[i], not yet written to the other
  bool eof[2] = {false, false}, done[2] = {false, false};
  ~Relay() {
    for (int f : fd)
      if (f >= 0) close(f);
  }
  bool Pump() {  // whether anything was done
    sched::NoSwitch g;
    bool any = false;
    for (int i = 0; i < 2; ++i) {
      if (fd[i] < 0 || done[i]) continue;
      if (!eof[i] && buf[i].size() < 200000) {
        char b[65536];
        ssize_t n = recv(fd[i], b, Some(sizeof b), MSG_DONTWAIT);
        if (n > 0) {
          buf[i].append(b, size_t(n));
          any = true;
        } else if (n == 0 || errno != EAGAIN) {
          eof[i] = any = true;
        }
      }
      if (!buf[i].empty()) {
        ssize_t n = send(fd[1 - i], buf[i].data(), Some(buf[i].size()), MSG_DONTWAIT | MSG_NOSIGNAL);
        if (n > 0) {
          buf[i].erase(0, size_t(n));
          any = true;
        } else if (errno != EAGAIN) {
          buf[i].clear();
          eof[i] = any = true;
        }
      } else if (eof[i]) {
        shutdown(fd[1 - i], SHUT_WR);
        done[i] = any = true;
      }
    }
    if (done[0] && done[1] && fd[0] >= 0) {
      for (int& f : fd) {
        close(f);
        f = -1;
      }
    }
    return any;
  }
};
}  // namespace net

#endif
