// All data transfer calls of the code under test end up in io_read / io_write (linker --wrap).
#pragma once
#include <sys/uio.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <unistd.h>
#include <cerrno>
#include <vector>
#include <cstring>
ssize_t io_read(int fd, const struct iovec* v, int n);
ssize_t io_write(int fd, const struct iovec* v, int n);
extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
inline bool io_mine(int fd) { return fd >= 5000; }
ssize_t __wrap_read(int fd, void* b, size_t l) { if (!io_mine(fd)) return __real_read(fd, b, l); iovec v{ b, l }; return io_read(fd, &v, 1); }
ssize_t __wrap_write(int fd, const void* b, size_t l) { if (!io_mine(fd)) return __real_write(fd, b, l); iovec v{ (void*)b, l }; return io_write(fd, &v, 1); }
ssize_t __wrap_readv(int fd, const iovec* v, int n) { return io_read(fd, v, n); }
ssize_t __wrap_writev(int fd, const iovec* v, int n) { return io_write(fd, v, n); }
ssize_t __wrap_recv(int fd, void* b, size_t l, int) { iovec v{ b, l }; return io_read(fd, &v, 1); }
ssize_t __wrap_send(int fd, const void* b, size_t l, int) { iovec v{ (void*)b, l }; return io_write(fd, &v, 1); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t l, int, sockaddr*, socklen_t*) { iovec v{ b, l }; return io_read(fd, &v, 1); }
ssize_t __wrap_sendto(int fd, const void* b, size_t l, int, const sockaddr*, socklen_t) { iovec v{ (void*)b, l }; return io_write(fd, &v, 1); }
ssize_t __wrap_recvmsg(int fd, msghdr* m, int) { return io_read(fd, m->msg_iov, (int)m->msg_iovlen); }
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int) { return io_write(fd, m->msg_iov, (int)m->msg_iovlen); }
}
