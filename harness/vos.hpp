// A virtual file system below /vfs and a virtual inotify, for programs under the controlled scheduler.
// The C library functions the library uses are defined here; calls that do not concern the virtual
// world are passed on to the kernel.  Only to be included by one source file of a harness.
#pragma once
#include "mcsched.hpp"

#include <cerrno>
#include <cstdio>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#define VOS_RAW __attribute__((no_sanitize("thread")))

namespace vos {

struct Event { int wd; std::uint32_t mask; std::string name; std::uint32_t cookie; };

struct Inotify
{
    int number {0};                       // nth instance of the process
    int last_wd {0};
    std::map<int, int> watches;           // wd -> inode
    std::map<int, std::uint32_t> masks;   // wd -> mask
    std::deque<Event> queue;
    bool pending {false};                 // events were read, but poll was not entered since
    int polls {0};
    int in_poll {0};
};

struct File { int inode {0}; bool dir {false}; std::string content; };

struct World
{
    std::map<std::string, File> files;    // by canonical absolute name
    int last_inode {1};
    std::map<int, std::shared_ptr<Inotify>> fds;
    std::map<int, std::shared_ptr<Inotify>> by_number;
    int instances {0};
    std::set<int> closed;
    // faults
    bool fail_init {false};
    int fail_watch {0};                   // the next n additions of watches fail
    bool choose_batches {false};          // how many events a read returns is enumerated
    int interrupts {0};                   // at most so many polls or reads may be interrupted, as a deviation
    // statistics
    int reads {0};
};
inline World *const g_world = new World;
inline World &world() { return *g_world; }

constexpr int FIRST_FD = 800;

inline std::string canonical(char const *p)
{
    std::string s(p), out;
    std::size_t i = 0;
    while (i < s.size())
    {
        std::size_t j = s.find('/', i);
        if (j == std::string::npos) j = s.size();
        std::string part = s.substr(i, j - i);
        if (!part.empty() && part != ".") out += "/" + part;
        i = j + 1;
    }
    return out;
}
inline bool mine(char const *p) { return p != nullptr && std::strncmp(p, "/vfs", 4) == 0; }
inline std::string parent(std::string const &p) { return p.substr(0, p.rfind('/')); }
inline std::string base(std::string const &p) { return p.substr(p.rfind('/') + 1); }

inline File *lookup(std::string const &p)
{
    auto it = world().files.find(p);
    return it == world().files.end() ? nullptr : &it->second;
}

// set-up, not visible to the scheduler
inline void make_dir(std::string const &p) { mc::Ignore ig; world().files[p] = {++world().last_inode, true, ""}; }
inline void make_file(std::string const &p, std::string content) { mc::Ignore ig; world().files[p] = {++world().last_inode, false, std::move(content)}; }

struct Emitted { int instance; bool coalesced; };

// tell everybody who watches the directory; returns who got it
inline std::vector<Emitted> emit(int inode, std::uint32_t mask, std::string const &name, std::uint32_t cookie = 0)
{
    std::vector<Emitted> out;
    for (auto &[fd, in] : world().fds)
    {
        for (auto &[wd, node] : in->watches)
        {
            if (node != inode || (in->masks[wd] & mask & IN_ALL_EVENTS) == 0) continue;
            Event e {wd, mask, name, cookie};
            bool const same = !in->queue.empty() && in->queue.back().wd == wd && in->queue.back().mask == mask && in->queue.back().name == name && in->queue.back().cookie == cookie;
            if (!same) in->queue.push_back(e);
            out.push_back({in->number, same});
        }
    }
    return out;
}

enum class Change { Create, Modify, Delete, MoveIn, MoveOut };

// one change of a file, and its event; a schedule point
inline std::vector<Emitted> change(std::string const &file, Change c, std::string content = "")
{
    mc::visible(&world(), "file system change");
    mc::Ignore ig;
    File *d = lookup(parent(file));
    if (d == nullptr) return {};
    static std::uint32_t cookie = 0;
    switch (c)
    {
        case Change::Create: world().files[file] = {++world().last_inode, false, content}; return emit(d->inode, IN_CREATE, base(file));
        case Change::Modify: world().files[file].content = content; return emit(d->inode, IN_MODIFY, base(file));
        case Change::Delete: world().files.erase(file); return emit(d->inode, IN_DELETE, base(file));
        case Change::MoveIn: world().files[file] = {++world().last_inode, false, content}; return emit(d->inode, IN_MOVED_TO, base(file), ++cookie);
        default: world().files.erase(file); return emit(d->inode, IN_MOVED_FROM, base(file), ++cookie);
    }
}

inline void remove_dir(std::string const &p)
{
    mc::visible(&world(), "rmdir");
    mc::Ignore ig;
    File *d = lookup(p);
    if (d == nullptr) return;
    int const inode = d->inode;
    for (auto it = world().files.begin(); it != world().files.end();)
    {
        if (it->first.rfind(p + "/", 0) == 0) it = world().files.erase(it);
        else ++it;
    }
    world().files.erase(p);
    for (auto &[fd, in] : world().fds)
    {
        for (auto it = in->watches.begin(); it != in->watches.end();)
        {
            if (it->second != inode) { ++it; continue; }
            in->queue.push_back({it->first, IN_IGNORED, "", 0});
            it = in->watches.erase(it);
        }
    }
}
inline void create_dir(std::string const &p)
{
    mc::visible(&world(), "mkdir");
    make_dir(p);
}

// has everything that was emitted been read and handled?
inline bool settled()
{
    for (auto &[fd, in] : world().fds) if (!in->queue.empty() || in->pending) return false;
    return true;
}
inline void settle()
{
    mc::block_until([] { return settled(); }, "the events to be handled");
    mc::visible(&world(), "settled");
}

// directories an instance watches, by name
inline std::set<std::string> watched(int number)
{
    std::set<std::string> out;
    auto it = world().by_number.find(number);
    if (it == world().by_number.end()) return out;
    for (auto &[wd, inode] : it->second->watches)
    {
        std::string name = "?";
        for (auto &[n, f] : world().files) if (f.inode == inode) name = n;
        out.insert(name);
    }
    return out;
}
inline bool is_open(int number)
{
    for (auto &[fd, in] : world().fds) if (in->number == number) return true;
    return false;
}

inline std::shared_ptr<Inotify> of(int fd)
{
    auto it = world().fds.find(fd);
    return it == world().fds.end() ? nullptr : it->second;
}

inline int do_init()
{
    mc::visible(&world(), "inotify_init");
    mc::Ignore ig;
    if (world().fail_init) { errno = EMFILE; return -1; }
    int fd = FIRST_FD;
    while (world().fds.count(fd)) ++fd;
    auto in = std::make_shared<Inotify>();
    in->number = world().instances++;
    world().fds[fd] = in;
    world().by_number[in->number] = in;
    return fd;
}
inline int do_add(int fd, char const *path, std::uint32_t mask)
{
    mc::visible(&world(), "inotify_add_watch");
    mc::Ignore ig;
    auto in = of(fd);
    mc::check(in != nullptr, "descriptor", "inotify_add_watch on the descriptor %d which is not open", fd);
    if (world().fail_watch > 0) { --world().fail_watch; errno = ENOSPC; return -1; }
    File *f = lookup(canonical(path));
    if (f == nullptr) { errno = ENOENT; return -1; }
    for (auto &[wd, inode] : in->watches) if (inode == f->inode) { in->masks[wd] = mask; return wd; }
    int const wd = ++in->last_wd;
    in->watches[wd] = f->inode;
    in->masks[wd] = mask;
    return wd;
}
inline int do_rm(int fd, int wd)
{
    mc::visible(&world(), "inotify_rm_watch");
    mc::Ignore ig;
    auto in = of(fd);
    mc::check(in != nullptr, "descriptor", "inotify_rm_watch on the descriptor %d which is not open any more (it may by then belong to another monitor)", fd);
    if (!in->watches.erase(wd)) { errno = EINVAL; return -1; }
    in->queue.push_back({wd, IN_IGNORED, "", 0});
    return 0;
}
inline bool interrupt(char const *what)
{
    if (world().interrupts <= 0) return false;
    if (mc::choose(2, what, false) == 0) return false;
    --world().interrupts;
    errno = EINTR;
    return true;
}
inline int do_poll(struct pollfd *p, int timeout)
{
    mc::visible(&world(), "poll");
    std::shared_ptr<Inotify> in;
    {
        mc::Ignore ig;
        in = of(p->fd);
        if (in) { ++in->polls; in->pending = false; ++in->in_poll; }
    }
    p->revents = 0;
    if (!in) { p->revents = POLLNVAL; return 1; }
    if (interrupt("interrupted poll")) { mc::Ignore ig; --in->in_poll; return -1; }
    Inotify *raw = in.get();
    bool const ready = mc::block_until([raw] { return !raw->queue.empty(); }, "poll", timeout < 0 ? -1 : mc::now_ns() + static_cast<std::int64_t>(timeout) * 1'000'000);
    mc::visible(&world(), "poll returns");
    mc::Ignore ig;
    --in->in_poll;
    if (!ready) return 0;
    p->revents = p->events & POLLIN;
    return 1;
}
inline ssize_t do_read(int fd, void *buf, std::size_t n)
{
    mc::visible(&world(), "read");
    if (interrupt("interrupted read")) return -1;
    std::size_t count = 0;
    std::shared_ptr<Inotify> in;
    {
        mc::Ignore ig;
        ++world().reads;
        in = of(fd);
        if (in->queue.empty()) { errno = EAGAIN; return -1; }
        std::size_t room = n;
        while (count < in->queue.size())
        {
            std::size_t const len = in->queue[count].name.empty() ? 0 : (in->queue[count].name.size() + 16) / 16 * 16;
            if (room < sizeof(inotify_event) + len) break;
            room -= sizeof(inotify_event) + len;
            ++count;
        }
        if (count == 0) { errno = EINVAL; return -1; }
    }
    if (world().choose_batches && count > 1) count -= static_cast<std::size_t>(mc::choose(static_cast<int>(count), "events fewer in this read"));
    mc::Ignore ig;
    char *out = static_cast<char *>(buf);
    for (std::size_t i = 0; i < count; ++i)
    {
        Event const e = in->queue.front();
        in->queue.pop_front();
        inotify_event ev {};
        ev.wd = e.wd;
        ev.mask = e.mask;
        ev.cookie = e.cookie;
        ev.len = e.name.empty() ? 0 : static_cast<std::uint32_t>((e.name.size() + 16) / 16 * 16);
        std::memcpy(out, &ev, sizeof(ev));
        std::memset(out + sizeof(ev), 0, ev.len);
        std::memcpy(out + sizeof(ev), e.name.data(), e.name.size());
        out += sizeof(ev) + ev.len;
    }
    in->pending = true;
    return out - static_cast<char *>(buf);
}
inline int do_close(int fd)
{
    mc::visible(&world(), "close");
    mc::Ignore ig;
    mc::check(world().fds.erase(fd) == 1, "descriptor", "close of the descriptor %d which is not open", fd);
    return 0;
}
inline int do_stat(char const *path, struct stat *st)
{
    mc::visible(&world(), "stat", false);
    mc::Ignore ig;
    std::string const p(path);
    File *f = lookup(canonical(path));
    if (f == nullptr) { errno = ENOENT; return -1; }
    if (!f->dir && p.back() == '/') { errno = ENOTDIR; return -1; }
    std::memset(st, 0, sizeof(*st));
    st->st_mode = f->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_ino = static_cast<ino_t>(f->inode);
    st->st_size = static_cast<off_t>(f->content.size());
    return 0;
}
inline FILE *do_fopen(char const *path, char const *mode)
{
    mc::visible(&world(), "open file", mode[0] != 'r');
    mc::Ignore ig;
    File *f = lookup(canonical(path));
    if (f == nullptr || f->dir || mode[0] != 'r') { errno = f == nullptr ? ENOENT : EACCES; return nullptr; }
    int const fd = static_cast<int>(::syscall(SYS_memfd_create, "vfs", 0));
    if (!f->content.empty() && ::syscall(SYS_write, fd, f->content.data(), f->content.size()) != static_cast<long>(f->content.size())) std::abort();
    ::lseek(fd, 0, SEEK_SET);
    return ::fdopen(fd, "r");
}

} // namespace vos

extern "C" {
VOS_RAW int inotify_init1(int) { return vos::do_init(); }
VOS_RAW int inotify_add_watch(int fd, char const *path, std::uint32_t mask) { return vos::do_add(fd, path, mask); }
VOS_RAW int inotify_rm_watch(int fd, int wd) { return vos::do_rm(fd, wd); }
VOS_RAW int poll(struct pollfd *p, nfds_t n, int timeout)
{
    if (n == 1 && p->fd >= vos::FIRST_FD) return vos::do_poll(p, timeout);
    return static_cast<int>(::syscall(SYS_poll, p, n, timeout));
}
VOS_RAW ssize_t read(int fd, void *buf, std::size_t n)
{
    if (fd >= vos::FIRST_FD && vos::world().fds.count(fd)) return vos::do_read(fd, buf, n);
    return ::syscall(SYS_read, fd, buf, n);
}
VOS_RAW int close(int fd)
{
    if (fd >= vos::FIRST_FD) return vos::do_close(fd);
    return static_cast<int>(::syscall(SYS_close, fd));
}
VOS_RAW int stat(char const *path, struct stat *st) noexcept
{
    if (vos::mine(path)) return vos::do_stat(path, st);
    return static_cast<int>(::syscall(SYS_newfstatat, AT_FDCWD, path, st, 0));
}
VOS_RAW int lstat(char const *path, struct stat *st) noexcept
{
    if (vos::mine(path)) return vos::do_stat(path, st);
    return static_cast<int>(::syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW));
}
static FILE *vos_fopen(char const *path, char const *mode)
{
    if (vos::mine(path)) return vos::do_fopen(path, mode);
    int flags = O_RDONLY;
    bool const plus = std::strchr(mode, '+') != nullptr;
    if (mode[0] == 'w') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else if (mode[0] == 'a') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    else if (plus) flags = O_RDWR;
    int const fd = ::open(path, flags, 0666);
    return fd < 0 ? nullptr : ::fdopen(fd, mode);
}
FILE *fopen(char const *path, char const *mode) { return vos_fopen(path, mode); }
FILE *fopen64(char const *path, char const *mode) { return vos_fopen(path, mode); }
}
