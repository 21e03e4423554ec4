// A virtual socket layer: the socket calls the library uses are defined here and answered by an Os
// object of the harness.  Descriptors start at FIRST and are never reused, so that a call on a closed
// descriptor is recognised.  Calls on other descriptors are passed on to the kernel (close, fcntl) or
// fail with EBADF.  Only to be included by one source file of a harness.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#ifndef VSOCK_RAW
#    define VSOCK_RAW
#endif
#ifndef VSOCK_GUARD   // opened behind at(): the bookkeeping is not monitored
#    define VSOCK_GUARD
#endif

namespace vsock {

enum class Call { Socket, GetFlags, SetFlags, GetOption, SetOption, Bind, Listen, Accept, Connect, Send, SendTo, Recv, RecvFrom, SockName, PeerName, Resolve, Close };
inline char const *name(Call c)
{
    static char const *const n[] = {"socket", "fcntl(F_GETFL)", "fcntl(F_SETFL)", "getsockopt", "setsockopt", "bind", "listen", "accept", "connect", "send", "sendto", "recv", "recvfrom", "getsockname", "getpeername", "getaddrinfo", "close"};
    return n[static_cast<int>(c)];
}

// What a call gives: ret >= 0, or -1 with an error number.
struct Result { long ret {0}; int err {0}; };

struct Fd
{
    int domain {0}, type {0};
    bool open {true}, nonblock {false}, listening {false};
    std::string bound, peer;         // canonical end points
    bool reuse {false};
    std::string sent;                // bytes handed over
    std::vector<std::string> grams;  // datagrams handed over
    std::vector<std::string> to;     // and where they went
    std::vector<std::string> got;    // what it delivered, one entry per call
    int calls {0};
};

struct World
{
    int first {100};
    int next {100};
    std::map<int, Fd> fds;
    std::vector<std::string> bad;    // what must not happen
    bool reuse {false};              // a closed descriptor is given out again
    bool lenient {false};            // calls other than close on a closed descriptor are accepted (they fail)
    int addrinfos {0};
    unsigned char counter {0};
    std::string received;            // bytes delivered by the last receiving call
    std::string from;                // end point reported by the last accept/recvfrom
};
inline World *g_world = nullptr;
inline World &world() { return *g_world; }
inline Fd *of(int fd)
{
    if (g_world == nullptr) return nullptr;
    auto it = world().fds.find(fd);
    return it == world().fds.end() ? nullptr : &it->second;
}
inline void bad(char const *f, ...)
{
    char b[300];
    va_list ap;
    va_start(ap, f);
    std::vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    world().bad.push_back(b);
}

inline std::string text(sockaddr const *a, socklen_t n)
{
    char b[80] = "";
    if (a->sa_family == AF_INET && n >= sizeof(sockaddr_in))
    {
        auto const *s = reinterpret_cast<sockaddr_in const *>(a);
        inet_ntop(AF_INET, &s->sin_addr, b, sizeof b);
        return std::string(b) + ":" + std::to_string(ntohs(s->sin_port));
    }
    if (a->sa_family == AF_INET6 && n >= sizeof(sockaddr_in6))
    {
        auto const *s = reinterpret_cast<sockaddr_in6 const *>(a);
        inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b);
        return "[" + std::string(b) + "]:" + std::to_string(ntohs(s->sin6_port));
    }
    return "bad address of family " + std::to_string(a->sa_family) + " and size " + std::to_string(n);
}
// the n-th end point the virtual network reports
inline std::string fill(int domain, unsigned n, sockaddr *a, socklen_t *size)
{
    if (domain == AF_INET)
    {
        sockaddr_in s {};
        s.sin_family = AF_INET;
        s.sin_addr.s_addr = htonl(0x0a01'0200u + n);
        s.sin_port = htons(static_cast<std::uint16_t>(0x1234 + n));
        std::memcpy(a, &s, std::min<std::size_t>(sizeof s, *size));
        if (*size < sizeof s) bad("the buffer for an address is %u bytes", *size);
        *size = sizeof s;
        return text(reinterpret_cast<sockaddr *>(&s), sizeof s);
    }
    sockaddr_in6 s {};
    s.sin6_family = AF_INET6;
    for (int i = 0; i < 16; ++i) s.sin6_addr.s6_addr[i] = static_cast<std::uint8_t>(0x20 + i);
    s.sin6_addr.s6_addr[15] = static_cast<std::uint8_t>(n);
    s.sin6_port = htons(static_cast<std::uint16_t>(0x1234 + n));
    std::memcpy(a, &s, std::min<std::size_t>(sizeof s, *size));
    if (*size < sizeof s) bad("the buffer for an address is %u bytes", *size);
    *size = sizeof s;
    return text(reinterpret_cast<sockaddr *>(&s), sizeof s);
}

// Provided by the harness: what happens on this call?  n: bytes offered or room.
Result decide(Call c, int fd, std::size_t n);
// Provided by the harness: the poll call.  The sets hold virtual descriptors only.
int decide_select(std::set<int> &reading, std::set<int> &writing, std::int64_t timeout_us);
// Called at the beginning of every call (a schedule point).
void at(Call c, int fd);

inline bool dead(Call c, int fd, Fd *&f)
{
    f = of(fd);
    if (f == nullptr) { errno = EBADF; return true; }
    if (!f->open)
    {
        if (c == Call::Close || !world().lenient) bad("%s on the descriptor %d which was closed", name(c), fd);
        errno = EBADF;
        return true;
    }
    ++f->calls;
    return false;
}
// flags which change what is transferred, or whether the call waits
inline void flags(Call c, Fd *f, int value)
{
    int const known = MSG_NOSIGNAL | (f->nonblock ? MSG_DONTWAIT : 0);
    if (value & ~known) bad("%s with the flags %#x", name(c), static_cast<unsigned>(value));
}
inline bool failed(Result const &r)
{
    if (r.ret >= 0) return false;
    errno = r.err;
    return true;
}

} // namespace vsock

#define VS_FAIL(call, fd, n)                                                      \
    vsock::Fd *f;                                                                 \
    vsock::at(call, fd);                                                          \
    VSOCK_GUARD                                                                   \
    if (vsock::dead(call, fd, f)) return -1;                                      \
    vsock::Result const r = vsock::decide(call, fd, n);                           \
    if (vsock::failed(r)) return -1;

extern "C" {

VSOCK_RAW int socket(int domain, int type, int protocol) noexcept
{
    if (vsock::g_world == nullptr) return static_cast<int>(syscall(SYS_socket, domain, type, protocol));
    vsock::at(vsock::Call::Socket, -1);
    VSOCK_GUARD
    vsock::Result const r = vsock::decide(vsock::Call::Socket, -1, 0);
    if (vsock::failed(r)) return -1;
    int fd = vsock::world().next;
    if (vsock::world().reuse) for (auto const &[k, v] : vsock::world().fds) if (!v.open) { fd = k; break; }
    if (fd == vsock::world().next) ++vsock::world().next;
    vsock::Fd n;
    n.domain = domain;
    n.type = type;
    vsock::world().fds[fd] = n;
    return fd;
}
VSOCK_RAW int close(int fd)
{
    vsock::Fd *f = vsock::of(fd);
    if (f == nullptr) return static_cast<int>(syscall(SYS_close, fd));
    vsock::at(vsock::Call::Close, fd);
    VSOCK_GUARD
    if (vsock::dead(vsock::Call::Close, fd, f)) return -1;
    f->open = false;
    f->listening = false;
    return 0;
}
VSOCK_RAW int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long const arg = va_arg(ap, long);
    va_end(ap);
    vsock::Fd *f = vsock::of(fd);
    if (f == nullptr) return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
    auto const call = cmd == F_GETFL ? vsock::Call::GetFlags : vsock::Call::SetFlags;
    vsock::at(call, fd);
    VSOCK_GUARD
    if (vsock::dead(call, fd, f)) return -1;
    vsock::Result const r = vsock::decide(call, fd, 0);
    if (vsock::failed(r)) return -1;
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if ((arg & O_ACCMODE) != O_RDWR) vsock::bad("the flags %lx were set", arg);
    f->nonblock = (static_cast<int>(arg) & O_NONBLOCK) != 0;
    return 0;
}
VSOCK_RAW int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long const arg = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}
VSOCK_RAW int getsockopt(int fd, int, int option, void *value, socklen_t *size) noexcept
{
    VS_FAIL(vsock::Call::GetOption, fd, 0)
    if (option != SO_ERROR || *size != sizeof(int)) vsock::bad("getsockopt of %d", option);
    *static_cast<int *>(value) = static_cast<int>(r.ret);
    return 0;
}
VSOCK_RAW int setsockopt(int fd, int, int option, void const *value, socklen_t size) noexcept
{
    VS_FAIL(vsock::Call::SetOption, fd, 0)
    if (option != SO_REUSEADDR || size != sizeof(int)) vsock::bad("setsockopt of %d", option);
    f->reuse = *static_cast<int const *>(value) != 0;
    return 0;
}
VSOCK_RAW int bind(int fd, sockaddr const *a, socklen_t size) noexcept
{
    VS_FAIL(vsock::Call::Bind, fd, 0)
    f->bound = vsock::text(a, size);
    return 0;
}
VSOCK_RAW int listen(int fd, int) noexcept
{
    VS_FAIL(vsock::Call::Listen, fd, 0)
    f->listening = true;
    return 0;
}
VSOCK_RAW int accept(int fd, sockaddr *a, socklen_t *size)
{
    VS_FAIL(vsock::Call::Accept, fd, 0)
    vsock::Fd n;
    n.domain = f->domain;
    n.type = SOCK_STREAM;
    n.peer = vsock::fill(f->domain, ++vsock::world().counter, a, size);
    vsock::world().from = n.peer;
    int const got = vsock::world().next++;
    vsock::world().fds[got] = n;
    return got;
}
VSOCK_RAW int connect(int fd, sockaddr const *a, socklen_t size)
{
    vsock::Fd *f;
    vsock::at(vsock::Call::Connect, fd);
    VSOCK_GUARD
    if (vsock::dead(vsock::Call::Connect, fd, f)) return -1;
    f->peer = vsock::text(a, size);
    vsock::Result const r = vsock::decide(vsock::Call::Connect, fd, 0);
    if (vsock::failed(r)) return -1;
    return 0;
}
VSOCK_RAW ssize_t send(int fd, void const *data, size_t n, int flags)
{
    vsock::Fd *f;
    vsock::at(vsock::Call::Send, fd);
    VSOCK_GUARD
    if (vsock::dead(vsock::Call::Send, fd, f)) return -1;
    vsock::flags(vsock::Call::Send, f, flags);
    vsock::Result const r = vsock::decide(vsock::Call::Send, fd, n);
    if (vsock::failed(r))
    {
        if (r.err == EPIPE && (flags & MSG_NOSIGNAL) == 0) vsock::bad("a send to a broken connection without MSG_NOSIGNAL ends the process");
        errno = r.err;
        return -1;
    }
    f->sent.append(static_cast<char const *>(data), static_cast<std::size_t>(r.ret));
    return r.ret;
}
VSOCK_RAW ssize_t sendto(int fd, void const *data, size_t n, int flags, sockaddr const *a, socklen_t size)
{
    VS_FAIL(vsock::Call::SendTo, fd, n)
    vsock::flags(vsock::Call::SendTo, f, flags);
    f->sent.append(static_cast<char const *>(data), static_cast<std::size_t>(r.ret));
    f->grams.push_back(std::string(static_cast<char const *>(data), n));
    f->to.push_back(vsock::text(a, size));
    return r.ret;
}
VSOCK_RAW ssize_t recv(int fd, void *data, size_t n, int flags)
{
    VS_FAIL(vsock::Call::Recv, fd, n)
    vsock::flags(vsock::Call::Recv, f, flags);
    vsock::world().received.clear();
    for (long i = 0; i < r.ret; ++i) vsock::world().received += static_cast<char>(++vsock::world().counter);
    std::memcpy(data, vsock::world().received.data(), static_cast<std::size_t>(r.ret));
    f->got.push_back(vsock::world().received);
    return r.ret;
}
VSOCK_RAW ssize_t recvfrom(int fd, void *data, size_t n, int flags, sockaddr *a, socklen_t *size)
{
    VS_FAIL(vsock::Call::RecvFrom, fd, n)
    vsock::flags(vsock::Call::RecvFrom, f, flags);
    vsock::world().received.clear();
    for (long i = 0; i < r.ret; ++i) vsock::world().received += static_cast<char>(++vsock::world().counter);
    std::memcpy(data, vsock::world().received.data(), static_cast<std::size_t>(r.ret));
    f->got.push_back(vsock::world().received);
    vsock::world().from = vsock::fill(f->domain, vsock::world().counter, a, size);
    return r.ret;
}
VSOCK_RAW int getsockname(int fd, sockaddr *a, socklen_t *size) noexcept
{
    VS_FAIL(vsock::Call::SockName, fd, 0)
    vsock::world().from = vsock::fill(f->domain, 77, a, size);
    return 0;
}
VSOCK_RAW int getpeername(int fd, sockaddr *a, socklen_t *size) noexcept
{
    VS_FAIL(vsock::Call::PeerName, fd, 0)
    vsock::world().from = vsock::fill(f->domain, 78, a, size);
    return 0;
}
VSOCK_RAW int getaddrinfo(char const *, char const *, addrinfo const *hints, addrinfo **res)
{
    vsock::at(vsock::Call::Resolve, -1);
    VSOCK_GUARD
    vsock::Result const r = vsock::decide(vsock::Call::Resolve, -1, 0);
    if (r.ret < 0) { *res = nullptr; return EAI_NONAME; }
    auto *a = new addrinfo {};
    auto *s = new sockaddr_storage {};
    socklen_t size = sizeof(*s);
    a->ai_family = hints->ai_family;
    a->ai_addr = reinterpret_cast<sockaddr *>(s);
    vsock::fill(hints->ai_family, 99, a->ai_addr, &size);
    a->ai_addrlen = size;
    *res = a;
    ++vsock::world().addrinfos;
    return 0;
}
VSOCK_RAW void freeaddrinfo(addrinfo *a) noexcept
{
    if (a == nullptr) return;
    --vsock::world().addrinfos;
    delete reinterpret_cast<sockaddr_storage *>(a->ai_addr);
    delete a;
}
VSOCK_RAW int select(int n, fd_set *rd, fd_set *wr, fd_set *, timeval *tv)
{
    std::set<int> reading, writing;
    auto bit = [](fd_set *s, int fd) -> bool { return (reinterpret_cast<unsigned char *>(s)[fd / 8] >> (fd % 8)) & 1; };
    for (int fd = 0; fd < n; ++fd)
    {
        if (rd != nullptr && bit(rd, fd)) reading.insert(fd);
        if (wr != nullptr && bit(wr, fd)) writing.insert(fd);
    }
    std::set<int> const r0 = reading, w0 = writing;
    int const status = vsock::decide_select(reading, writing, tv == nullptr ? -1 : static_cast<std::int64_t>(tv->tv_sec) * 1'000'000 + tv->tv_usec);
    if (status < 0) return status;
    auto clear = [](fd_set *s, int fd) { reinterpret_cast<unsigned char *>(s)[fd / 8] &= static_cast<unsigned char>(~(1u << (fd % 8))); };
    for (int fd : r0) if (!reading.count(fd)) clear(rd, fd);
    for (int fd : w0) if (!writing.count(fd)) clear(wr, fd);
    return status;
}

} // extern "C"
