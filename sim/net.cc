// Simulated network: see net.h. Connections behave like TCP over the loopback
// interface: bytes arrive in order, in pieces of any size; buffers are finite;
// whoever closes with unread data, or abruptly, resets the connection; writing
// to a peer that has gone succeeds once, and then raises SIGPIPE.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "net.h"
#include "rt_int.h"

#include <errno.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
namespace {
const int BASE = 1 << 20, MAX_CONN = 64, CAPACITY = 1 << 15;
const int LISTENER = BASE + MAX_CONN; // sockets not yet connected: from here
const int MAX_SOCK = 8;
const uintptr_t KEY = 0x7e7000000000ull;

struct Pipe {
  char b[CAPACITY];
  size_t at, n, cap;
};
struct Conn {
  bool used, waiting, accepted;
  bool client_shut, client_gone, server_shut, server_gone;
  bool reset;      // the client's reset has arrived
  bool graceful;   // after its end of file
  bool reported;   // and the server has been told
  bool told;       // the client has been told of the server's reset
  Pipe up, down;
};
Conn g_c[MAX_CONN];
int g_nc;
bool g_sock[MAX_SOCK];
int g_listening = -1;
bool g_in_accept;
uint64_t g_rng_net;

uint64_t draw(uint64_t n) {
  if (g_rng_net == 0)
    g_rng_net = g_cfg.seed * 0x9E3779B97F4A7C15ull + (uint64_t)g_cfg.inc + 77;
  return n ? rng(&g_rng_net) % n : 0;
}
uintptr_t up_key(int c) { return KEY + 16 * (uintptr_t)(c + 1); }
uintptr_t down_key(int c) { return KEY + 16 * (uintptr_t)(c + 1) + 8; }
const uintptr_t ACCEPT_KEY = KEY, LISTEN_KEY = KEY + 8;

size_t put(Pipe *p, const char *d, size_t n) {
  size_t k = p->cap - p->n;
  if (k > n)
    k = n;
  for (size_t i = 0; i < k; i++)
    p->b[(p->at + p->n + i) % CAPACITY] = d[i];
  p->n += k;
  return k;
}
size_t get(Pipe *p, char *d, size_t n) {
  size_t k = p->n < n ? p->n : n;
  for (size_t i = 0; i < k; i++)
    d[i] = p->b[(p->at + i) % CAPACITY];
  p->at = (p->at + k) % CAPACITY;
  p->n -= k;
  return k;
}
void wake_both(int c) {
  wake_key(up_key(c), 1000);
  wake_key(down_key(c), 1000);
}
int conn_of(int fd) {
  int c = fd - BASE;
  return c >= 0 && c < g_nc && g_c[c].accepted && !g_c[c].server_gone ? c : -1;
}
void broken_pipe(int flags) {
  probe(55);
  if (flags & MSG_NOSIGNAL)
    return;
  struct sigaction sa;
  if (sigaction(SIGPIPE, nullptr, &sa) == 0 && sa.sa_handler != SIG_DFL)
    return;
  fail("server-killed", "a client that has gone kills the server by SIGPIPE");
}
} // namespace

bool net_owns(int fd) { return fd >= BASE && fd < LISTENER + MAX_SOCK; }

int net_connect() {
  sync_point(60, 0);
  while (g_listening < 0)
    block_on(LISTEN_KEY);
  if (g_nc == MAX_CONN)
    internal("too many connections");
  int c = g_nc++;
  Conn &k = g_c[c];
  memset(&k, 0, sizeof k - 2 * sizeof(Pipe));
  k.up.at = k.up.n = k.down.at = k.down.n = 0;
  static const size_t caps[] = {7, 100, 1000, 4096, CAPACITY, CAPACITY};
  k.up.cap = draw(20) ? caps[draw(6)] : 1;
  k.down.cap = draw(20) ? caps[draw(6)] : 1;
  k.used = k.waiting = true;
  wake_key(ACCEPT_KEY, 1);
  return c;
}
bool net_send(int c, const char *d, size_t n) {
  Conn &k = g_c[c];
  while (n) {
    sync_point(61, (uintptr_t)c);
    if (k.server_gone) { // nobody reads it any more
      k.told = true;
      return false;
    }
    size_t m = put(&k.up, d, n < 2 ? n : 1 + draw(n));
    if (m == 0) {
      block_on(down_key(c));
      continue;
    }
    d += m;
    n -= m;
    wake_key(up_key(c), 1000);
  }
  return true;
}
size_t net_offer(int c, const char *d, size_t n) {
  Conn &k = g_c[c];
  size_t done = 0;
  while (done < n && !k.server_gone) {
    sync_point(61, (uintptr_t)c);
    size_t m = put(&k.up, d + done, 1 + draw(n - done));
    if (m == 0)
      break;
    done += m;
    wake_key(up_key(c), 1000);
  }
  return done;
}
ssize_t net_recv(int c, char *d, size_t n) {
  Conn &k = g_c[c];
  for (;;) {
    sync_point(62, (uintptr_t)c);
    if (k.down.n) {
      size_t m = get(&k.down, d, n);
      wake_key(up_key(c), 1000);
      return (ssize_t)m;
    }
    if (k.told)
      return -1;
    if (k.server_gone || k.server_shut)
      return 0;
    block_on(down_key(c));
  }
}
void net_shutdown(int c) {
  sync_point(63, (uintptr_t)c);
  g_c[c].client_shut = true;
  wake_both(c);
}
void net_close(int c, bool abruptly) {
  sync_point(64, (uintptr_t)c);
  Conn &k = g_c[c];
  k.graceful = k.client_shut;
  if (abruptly || k.down.n) {
    k.reset = true;
    probe(56);
  }
  k.client_shut = k.client_gone = true;
  k.down.n = 0;
  wake_both(c);
}
bool net_idle() {
  if (!g_in_accept)
    return false;
  for (int c = 0; c < g_nc; c++)
    if (g_c[c].waiting)
      return false;
  return true;
}

int net_left_open() {
  int n = 0;
  for (int c = 0; c < g_nc; c++)
    n += g_c[c].accepted && !g_c[c].server_gone;
  for (int i = 0; i < MAX_SOCK; i++)
    n += g_sock[i] && LISTENER + i != g_listening;
  return n;
}

ssize_t net_read(int fd, void *d, size_t n) {
  int c = conn_of(fd);
  if (c < 0) {
    errno = fd >= LISTENER ? ENOTCONN : EBADF;
    return -1;
  }
  Conn &k = g_c[c];
  for (;;) {
    if (n != 1 || k.up.n == 0 || draw(16) == 0)
      sync_point(65, (uintptr_t)c);
    if (n == 0)
      return 0;
    if (k.up.n) {
      size_t m = get(&k.up, (char *)d, n < 2 ? n : 1 + draw(n));
      wake_key(down_key(c), 1000);
      return (ssize_t)m;
    }
    if (k.reset && !k.reported) {
      k.reported = true;
      errno = ECONNRESET;
      return -1;
    }
    if (k.client_shut || k.reset)
      return 0;
    block_on(up_key(c));
  }
}
ssize_t net_write(int fd, const void *data, size_t n, int flags) {
  int c = conn_of(fd);
  if (c < 0) {
    errno = fd >= LISTENER ? ENOTCONN : EBADF;
    return -1;
  }
  Conn &k = g_c[c];
  for (;;) {
    sync_point(66, (uintptr_t)c);
    if (k.server_shut || (k.reset && (k.reported || k.graceful))) {
      k.reported = true;
      broken_pipe(flags);
      errno = EPIPE;
      return -1;
    }
    if (k.reset) {
      k.reported = true;
      errno = ECONNRESET;
      return -1;
    }
    if (k.client_gone) { // it is sent; what comes back is a reset
      k.reset = k.graceful = true;
      probe(57);
      return (ssize_t)n;
    }
    if (n == 0)
      return 0;
    size_t m = n;
    if (m > 1 && draw(20) == 0) {
      m = 1 + draw(m);
      probe(58);
    }
    m = put(&k.down, (const char *)data, m);
    if (m) {
      wake_key(down_key(c), 1000);
      return (ssize_t)m;
    }
    probe(59);
    block_on(up_key(c));
  }
}
static int net_poll(struct pollfd *p, int timeout) {
  for (;;) {
    sync_point(71, 0);
    int c = conn_of(p->fd);
    p->revents = 0;
    if (c < 0) {
      if (p->fd != g_listening) {
        p->revents = POLLNVAL;
        return 1;
      }
      for (int i = 0; i < g_nc; i++)
        if (g_c[i].waiting)
          p->revents = p->events & POLLIN;
    } else {
      Conn &k = g_c[c];
      if (k.up.n || k.client_shut || k.reset)
        p->revents |= p->events & POLLIN;
      if (k.down.n < k.down.cap || k.client_gone || k.reset)
        p->revents |= p->events & POLLOUT;
      if (k.reset)
        p->revents |= POLLERR | POLLHUP;
    }
    if (p->revents)
      return 1;
    if (timeout >= 0)
      return 0; // time flies
    bool accepting = c < 0;
    g_in_accept = accepting;
    block_on(accepting ? ACCEPT_KEY : up_key(c));
    g_in_accept = false;
  }
}
int net_close_fd(int fd) {
  sync_point(67, 0);
  if (fd >= LISTENER) {
    g_sock[fd - LISTENER] = false;
    if (g_listening == fd)
      g_listening = -1;
    return 0;
  }
  int c = conn_of(fd);
  if (c < 0) {
    errno = EBADF;
    return -1;
  }
  Conn &k = g_c[c];
  k.server_gone = true;
  if (k.up.n) { // unread data: the client is reset
    k.told = true;
    k.up.n = 0;
  }
  wake_both(c);
  return 0;
}

static int do_accept(int fd, struct sockaddr *a, socklen_t *len) {
  if (fd != g_listening) {
    errno = EINVAL;
    return -1;
  }
  for (;;) {
    sync_point(68, 0);
    for (int c = 0; c < g_nc; c++)
      if (g_c[c].waiting) {
        if (draw(16) == 0) { // one that was never completed
          probe(60);
          errno = ECONNABORTED;
          return -1;
        }
        g_c[c].waiting = false;
        g_c[c].accepted = true;
        if (a && len) {
          struct sockaddr_in in;
          memset(&in, 0, sizeof in);
          in.sin_family = AF_INET;
          in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
          in.sin_port = htons((uint16_t)(40000 + c));
          memcpy(a, &in, *len < sizeof in ? *len : sizeof in);
          *len = sizeof in;
        }
        return BASE + c;
      }
    g_in_accept = true;
    block_on(ACCEPT_KEY);
    g_in_accept = false;
  }
}
} // namespace sim

using namespace sim;


extern "C" {
int socket(int domain, int type, int protocol) {
  if (!active())
    return (int)syscall(SYS_socket, domain, type, protocol);
  sync_point(69, 0);
  for (int i = 0; i < MAX_SOCK; i++)
    if (!g_sock[i]) {
      g_sock[i] = true;
      return LISTENER + i;
    }
  errno = EMFILE;
  return -1;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
  if (!active() || !net_owns(fd))
    return (int)syscall(SYS_setsockopt, fd, l, o, v, n);
  return 0;
}
int bind(int fd, const struct sockaddr *a, socklen_t n) {
  if (!active() || !net_owns(fd))
    return (int)syscall(SYS_bind, fd, a, n);
  return 0;
}
int listen(int fd, int backlog) {
  if (!active() || !net_owns(fd))
    return (int)syscall(SYS_listen, fd, backlog);
  g_listening = fd;
  wake_key(LISTEN_KEY, 1000);
  return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *n) {
  if (!active() || !net_owns(fd))
    return (int)syscall(SYS_getsockname, fd, a, n);
  struct sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET;
  in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  in.sin_port = htons(33333);
  memcpy(a, &in, *n < sizeof in ? *n : sizeof in);
  *n = sizeof in;
  return 0;
}
int accept(int fd, struct sockaddr *a, socklen_t *n) {
  if (!active() || !net_owns(fd))
    return (int)syscall(SYS_accept, fd, a, n);
  return do_accept(fd, a, n);
}
int accept4(int fd, struct sockaddr *a, socklen_t *n, int flags) {
  if (!active() || !net_owns(fd))
    return (int)syscall(SYS_accept4, fd, a, n, flags);
  return do_accept(fd, a, n);
}
ssize_t recv(int fd, void *d, size_t n, int flags) {
  if (!active() || !net_owns(fd))
    return syscall(SYS_recvfrom, fd, d, n, flags, nullptr, nullptr);
  if (flags & ~(MSG_NOSIGNAL | MSG_WAITALL))
    internal("recv with flags %d", flags);
  if (!(flags & MSG_WAITALL))
    return net_read(fd, d, n);
  size_t k = 0;
  while (k < n) {
    ssize_t r = net_read(fd, (char *)d + k, n - k);
    if (r <= 0)
      return k ? (ssize_t)k : r;
    k += (size_t)r;
  }
  return (ssize_t)k;
}
ssize_t send(int fd, const void *d, size_t n, int flags) {
  if (!active() || !net_owns(fd))
    return syscall(SYS_sendto, fd, d, n, flags, nullptr, 0);
  return net_write(fd, d, n, flags);
}
ssize_t recvfrom(int fd, void *d, size_t n, int flags, struct sockaddr *a,
                 socklen_t *len) {
  if (!active() || !net_owns(fd))
    return syscall(SYS_recvfrom, fd, d, n, flags, a, len);
  if (len)
    *len = 0;
  return recv(fd, d, n, flags);
}
ssize_t sendto(int fd, const void *d, size_t n, int flags,
               const struct sockaddr *a, socklen_t len) {
  if (!active() || !net_owns(fd))
    return syscall(SYS_sendto, fd, d, n, flags, a, len);
  return net_write(fd, d, n, flags);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
  if (!active() || !net_owns(fd))
    return syscall(SYS_sendmsg, fd, m, flags);
  ssize_t done = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) {
    if (m->msg_iov[i].iov_len == 0)
      continue;
    ssize_t k = net_write(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len,
                          flags);
    if (k < 0)
      return done ? done : k;
    done += k;
    if ((size_t)k < m->msg_iov[i].iov_len)
      break;
  }
  return done;
}
int poll(struct pollfd *p, nfds_t n, int timeout) {
  if (!active() || n != 1 || !net_owns(p->fd))
    return (int)syscall(SYS_poll, p, n, timeout);
  return net_poll(&p[0], timeout);
}
int shutdown(int fd, int how) {
  if (!active() || !net_owns(fd))
    return (int)syscall(SYS_shutdown, fd, how);
  int c = conn_of(fd);
  if (c < 0) {
    errno = ENOTCONN;
    return -1;
  }
  sync_point(70, 0);
  if (how != SHUT_RD)
    g_c[c].server_shut = true;
  wake_both(c);
  return 0;
}
}
