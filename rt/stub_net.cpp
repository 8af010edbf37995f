// Socket system calls of the code under test, forwarded to the harness's model.
#include "net.h"
#include <sys/syscall.h>
#include <unistd.h>
#include <poll.h>
#undef htons
#undef ntohs
#undef htonl
#undef ntohl
NetModel* sx_net = nullptr;
extern "C" {
ssize_t recv(int fd, void* b, size_t n, int fl) { return sx_net->recv(fd, (uint8_t*)b, n, fl); }
ssize_t send(int fd, const void* b, size_t n, int fl) { return sx_net->send(fd, (const uint8_t*)b, n, fl); }
int shutdown(int fd, int how) noexcept { return sx_net->shutdown(fd, how); }
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) noexcept { return sx_net->setsockopt(fd, l, o, v, n); }
int getsockopt(int fd, int l, int o, void* v, socklen_t* n) noexcept { return sx_net->getsockopt(fd, l, o, v, n); }
int socket(int a, int b, int c) noexcept { return sx_net->socket(a, b, c); }
int bind(int fd, const struct sockaddr* a, socklen_t n) noexcept { return sx_net->bind(fd, a, n); }
int listen(int fd, int n) noexcept { return sx_net->listen(fd, n); }
int accept(int fd, struct sockaddr* a, socklen_t* n) { return sx_net->accept(fd, a, n); }
#ifdef SX_SYMBOLIC
int close(int fd) { return sx_net->close(fd); }
unsigned short htons(unsigned short v) noexcept { return __builtin_bswap16(v); }
unsigned short ntohs(unsigned short v) noexcept { return __builtin_bswap16(v); }
unsigned htonl(unsigned v) noexcept { return __builtin_bswap32(v); }
unsigned ntohl(unsigned v) noexcept { return __builtin_bswap32(v); }
in_addr_t inet_addr(const char* s) noexcept { unsigned r = 0, k = 0, v = 0; for (;; s++) { if (*s >= '0' && *s <= '9') v = v * 10 + (*s - '0'); else { r |= v << (8 * k++); v = 0; if (!*s || k > 3) break; } } return r; }
const char* inet_ntop(int, const void* src, char* dst, socklen_t n) noexcept { const uint8_t* a = (const uint8_t*)src; std::string s; for (int i = 0; i < 4; i++) { if (i) s += '.'; unsigned v = sx_concretize(a[i]); s += std::to_string(v); } if (s.size() + 1 > n) { errno = ENOSPC; return nullptr; } __builtin_memcpy(dst, s.c_str(), s.size() + 1); return dst; }
#else
int close(int fd) { if (sx_net && sx_net->owns(fd)) return sx_net->close(fd); return syscall(SYS_close, fd); }
#endif
}
