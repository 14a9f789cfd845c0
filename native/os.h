// Stand-ins for the system calls the library makes: each is recorded and, while a script is armed, answered from it without reaching the system.
#pragma once
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <cerrno>
#include <deque>
#include <map>
#include "oracle.h"
namespace os {
struct call { std::string name; int fd; long a = 0, b = 0; std::string data; const void* p = nullptr; };
struct answer { long result; int err = 0; std::string data; };
inline std::vector<call>* log; inline std::deque<answer>* script; inline bool armed = false, recording = false;
inline void note(call c) { bool r = recording; recording = false; if (r) log->push_back(std::move(c)); recording = r; }
inline answer next() { if (script->empty()) oracle::fail("more system calls than expected, last: " + (log->empty() ? "none" : log->back().name)); answer a = script->front(); script->pop_front(); if (a.result < 0) errno = a.err; return a; }
inline std::set<int>* open_fds;   // descriptors known to be open
inline void start() { log = new std::vector<call>; script = new std::deque<answer>; open_fds = new std::set<int>; }
inline bool is_open(int fd) { return syscall(SYS_fcntl, fd, F_GETFD) >= 0; }
}
extern "C" {
int close(int fd) { if (os::recording) { if (!os::armed && fd >= 0) REQUIRE(os::is_open(fd), "closes descriptor ", fd, ", which is not open"); os::note({"close", fd}); if (os::armed) return os::next().result; } return (int)syscall(SYS_close, fd); }
int dup(int fd) noexcept { os::note({"dup", fd}); if (os::armed) return os::next().result; return (int)syscall(SYS_dup, fd); }
int socket(int f, int t, int p) noexcept { os::note({"socket", f, t, p}); if (os::armed) return os::next().result; return (int)syscall(SYS_socket, f, t, p); }
int open(const char* path, int flags, ...) { va_list l; va_start(l, flags); int m = va_arg(l, int); va_end(l); os::note({"open", 0, flags, m, path}); if (os::armed) return os::next().result; return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m); }
int pipe(int* fd) noexcept { os::note({"pipe", 0}); if (os::armed) { auto a = os::next(); if (a.result == 0) { fd[0] = a.data[0]; fd[1] = a.data[1]; } return a.result; } return (int)syscall(SYS_pipe, fd); }
ssize_t read(int fd, void* b, size_t n) { os::note({"read", fd, (long)n, 0, "", b}); if (os::armed) { auto a = os::next(); if (a.result > 0) memcpy(b, a.data.data(), a.result); return a.result; } return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { os::note({"write", fd, (long)n, 0, os::armed ? std::string((const char*)b, n) : "", b}); if (os::armed) return os::next().result; return syscall(SYS_write, fd, b, n); }
static void os_name(const os::answer& a, sockaddr* s, socklen_t* l) { if (s && a.result >= 0) { memcpy(s, a.data.data(), std::min<std::size_t>(*l, a.data.size())); *l = a.data.size(); } }
int accept(int fd, sockaddr* s, socklen_t* l) { os::note({"accept", fd, l ? (long)*l : -1, 0, "", s}); if (os::armed) { auto a = os::next(); os_name(a, s, l); return a.result; } return (int)syscall(SYS_accept, fd, s, l); }
int getsockname(int fd, sockaddr* s, socklen_t* l) noexcept { os::note({"getsockname", fd, (long)*l}); if (os::armed) { auto a = os::next(); os_name(a, s, l); return a.result; } return (int)syscall(SYS_getsockname, fd, s, l); }
int getpeername(int fd, sockaddr* s, socklen_t* l) noexcept { os::note({"getpeername", fd, (long)*l}); if (os::armed) { auto a = os::next(); os_name(a, s, l); return a.result; } return (int)syscall(SYS_getpeername, fd, s, l); }
int connect(int fd, const sockaddr* s, socklen_t l) { os::note({"connect", fd, 0, 0, os::armed ? std::string((const char*)s, l) : ""}); if (os::armed) return os::next().result; return (int)syscall(SYS_connect, fd, s, l); }
int bind(int fd, const sockaddr* s, socklen_t l) noexcept { os::note({"bind", fd, 0, 0, os::armed ? std::string((const char*)s, l) : ""}); if (os::armed) return os::next().result; return (int)syscall(SYS_bind, fd, s, l); }
int listen(int fd, int n) noexcept { os::note({"listen", fd, n}); if (os::armed) return os::next().result; return (int)syscall(SYS_listen, fd, n); }
int shutdown(int fd, int how) noexcept { os::note({"shutdown", fd, how}); if (os::armed) return os::next().result; return (int)syscall(SYS_shutdown, fd, how); }
int setsockopt(int fd, int lv, int o, const void* v, socklen_t n) noexcept { os::note({"setsockopt", fd, lv, o, std::string((const char*)v, n)}); if (os::armed) return os::next().result; return (int)syscall(SYS_setsockopt, fd, lv, o, v, n); }
int getsockopt(int fd, int lv, int o, void* v, socklen_t* n) noexcept { os::note({"getsockopt", fd, lv, o}); if (os::armed) { auto a = os::next(); if (a.result == 0) { memcpy(v, a.data.data(), std::min<std::size_t>(*n, a.data.size())); *n = a.data.size(); } return a.result; } return (int)syscall(SYS_getsockopt, fd, lv, o, v, n); }
int fcntl(int fd, int cmd, ...) { va_list l; va_start(l, cmd); long x = va_arg(l, long); va_end(l); os::note({"fcntl", fd, cmd, cmd == F_SETFL ? (long)(int)x : 0}); if (os::armed) return os::next().result; return (int)syscall(SYS_fcntl, fd, cmd, x); }
int poll(pollfd* f, nfds_t n, int ms) { if (os::armed) { std::string d; for (nfds_t i = 0; i < n; i++) if (f[i].fd >= 0) d += (d.empty() ? "" : " ") + std::to_string(f[i].fd) + (f[i].events & POLLOUT ? "w" : "r"); os::note({"poll", (int)n, ms, 0, d}); auto a = os::next(); for (nfds_t i = 0; i < n; i++) f[i].revents = f[i].fd >= 0 && i < a.data.size() && a.data[i] ? a.data[i] : 0; return a.result; } return (int)syscall(SYS_poll, f, n, ms); }
}
