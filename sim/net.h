// Simulated network: stream sockets of the code under test, and the clients at
// the other end of them, which belong to the workload.
#ifndef SIM_NET_H_
#define SIM_NET_H_
#include <cstddef>
#include <sys/types.h>

namespace sim {
// Clients. They connect to the one listening socket there is.
int net_connect();                                  // waits for a listener
bool net_send(int c, const char *data, size_t n);   // false: reset or closed
size_t net_offer(int c, const char *data, size_t n); // what there is room for
ssize_t net_recv(int c, char *data, size_t n);      // 0: end, -1: reset
void net_shutdown(int c);                           // will send no more
void net_close(int c, bool abruptly);
int net_left_open(); // connections and sockets the server has not closed
bool net_idle(); // the server waits for a connection, and there is none
// Inside the runtime.
bool net_owns(int fd);
ssize_t net_read(int fd, void *data, size_t n);
ssize_t net_write(int fd, const void *data, size_t n, int flags);
int net_close_fd(int fd);
} // namespace sim
#endif
