// simulated kernel: descriptors >= 100 (pipes, eventfd, timerfd, TCP/UDP loopback sockets, epoll, select, poll)
#pragma once
#include <cstddef>
#include <cstdint>
#include <netinet/in.h>
namespace simk {
struct Options {
	size_t sock_cap = 1 << 16;     // bytes one direction of a connection holds
	size_t pipe_cap = 65536;
	bool strict = true;            // use of a closed descriptor is a failure
	// environment deviations (each costs one unit)
	bool short_write = false, short_read = false, spurious = false, eintr = false, order = false, accept_err = false, reset = false, nofile = false, fcntl_err = false;
};
Options& opt();
// how a connection attempt goes
enum { P_DEFAULT, P_IMMEDIATE, P_SYNC_ERR, P_ASYNC_OK, P_ASYNC_ERR };
struct Plan { int kind = P_DEFAULT; int err = 0; int64_t delay_us = 0; };
extern Plan (*connect_plan)(const sockaddr_in& to, int attempt);   // attempt counts from 0
extern bool (*socket_hook)();      // called by socket() for streams; false: no descriptor is left
extern void (*poll_hook)();        // called by epoll_wait and select each time they look for ready descriptors
size_t rx_len(int fd);            // bytes waiting to be read from a descriptor
uint32_t ready(int fd);            // EPOLL* mask of a descriptor right now
void quiet(bool on);               // this thread's calls get no deviations
int open_count();                  // simulated descriptors now open
void dump();                       // note() them
bool is_open(int fd);
int64_t serial(int fd);            // identity of the file behind fd (never reused), -1 if closed
int connect_attempts();
void reset_conn(int fd);           // the network resets the connection
// blocking helpers for harness peers (127.0.0.1)
int peer_listen(int port); int peer_connect(int port); int peer_accept(int lfd);
bool send_all(int fd, const void* p, size_t n);
long recv_some(int fd, void* p, size_t n);   // read(); -errno on error
int local_port(int fd);
}
