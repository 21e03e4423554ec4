// C10: asynchronous sockets over a virtual socket layer and a virtual poll call — every readiness order, every
// outcome of every call (full, partial, would block, broken), every bounded schedule of the threads around them.
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/net/network_config.hpp"
#include "fly/net/socket/listen_socket.hpp"
#include "fly/net/socket/socket_service.hpp"
#include "fly/net/socket/tcp_socket.hpp"
#include "fly/net/socket/udp_socket.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"
#include "mcsched.hpp"

#define VSOCK_RAW __attribute__((no_sanitize("thread")))
#define VSOCK_GUARD mc::Ignore vsock_guard;
#include "vsock.hpp"

#include <memory>
#include <optional>
#include <thread>

using namespace fly::net;
using namespace std::chrono_literals;
using fly::task::SequencedTaskRunner;
using fly::task::TaskManager;
using vsock::Call;
using vsock::Result;

using EP4 = Endpoint<IPv4Address>;
using EP6 = Endpoint<IPv6Address>;
using Tcp = TcpSocket<EP4>;
using Udp = UdpSocket<EP4>;
using Listener = ListenSocket<EP4>;

namespace {

struct FailingSink : fly::logger::Sink
{
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&) override { return false; }
};
struct Config : NetworkConfig
{
    explicit Config(std::size_t p) { m_default_packet_size = p; }
};

// what the virtual system may do
struct Rules
{
    int blocks {1};        // so many calls may say they would block
    int stalls {1};        // so many polls may time out or be interrupted
    bool fine {false};     // transfers of every size
    bool halves {false};   // transfers of a whole, a half, all but one, and one
    bool hard {true};      // hard errors
    int interrupts {1};    // polls that are interrupted rather than time out
    bool orders {true};    // every subset of the pending descriptors becomes ready
    bool late_connect {true};
};
Rules *g_rules;
std::map<int, std::vector<std::string>> *g_delivered;   // by descriptor
std::map<int, bool> *g_broken;                          // a hard error was reported
std::pair<std::set<int>, std::set<int>> *g_met;         // descriptors on which reading / writing met a hard error
std::map<int, bool> *g_unasked;                         // a connection was begun, and its outcome not asked for
int g_busy;

long pick(std::vector<Result> const &v, char const *what, Result &out)
{
    int const i = mc::choose(static_cast<int>(v.size()), what);
    out = v[static_cast<std::size_t>(i)];
    if (out.ret < 0 && out.err == EAGAIN) --g_rules->blocks;
    return i;
}

} // namespace

VSOCK_RAW void vsock::at(Call c, int fd)
{
    mc::visible(g_world, name(c));
    mc::Ignore ig;
    if (Fd *f = of(fd); f != nullptr && f->open && !f->nonblock && (c == Call::Send || c == Call::SendTo || c == Call::Recv || c == Call::RecvFrom || c == Call::Accept || c == Call::Connect)) mc::fail("blocking", "%s on the descriptor %d which is in blocking mode", name(c), fd);
}
VSOCK_RAW Result vsock::decide(Call c, int fd, std::size_t n)
{
    Rules &u = *g_rules;
    Result r {0, 0};
    std::vector<Result> v;
    long const k = static_cast<long>(n);
    switch (c)
    {
        case Call::Send:
        case Call::SendTo:
            v.push_back({k, 0});
            if (u.fine) for (long i = k - 1; i > 0; --i) v.push_back({i, 0});
            else if (u.halves) { if (k > 1) v.push_back({(k + 1) / 2, 0}); }
            else if (k > 1) v.push_back({1, 0});
            if (u.blocks > 0) v.push_back({-1, EAGAIN});
            if (u.hard) v.push_back({-1, EPIPE});
            if (u.hard && u.fine) { v.push_back({-1, EINTR}); v.push_back({0, 0}); }
            pick(v, name(c), r);
            break;
        case Call::Recv:
        case Call::RecvFrom:
            v.push_back({std::min(k, 2L), 0});
            if (u.halves) for (long i : {1L, k / 2, k - 1, k}) if (i > 0 && (i == 1 || i > 2)) v.push_back({i, 0});
            if (u.fine) for (long i = k; i > 0; --i) if (i != 2) v.push_back({i, 0});
            if (c == Call::RecvFrom) v.push_back({0, 0});
            if (u.blocks > 0) v.push_back({-1, EAGAIN});
            if (u.hard) v.push_back({-1, ECONNRESET});
            if (u.hard && c == Call::Recv) v.push_back({0, 0});
            pick(v, name(c), r);
            break;
        case Call::Accept:
            v.push_back({0, 0});
            if (u.blocks > 0) v.push_back({-1, EAGAIN});
            if (u.hard) v.push_back({-1, ECONNABORTED});
            pick(v, name(c), r);
            break;
        case Call::Connect:
            v = {{-1, EINPROGRESS}};
            if (u.late_connect) { v.push_back({0, 0}); v.push_back({-1, EINTR}); }
            if (u.hard) v.push_back({-1, ECONNREFUSED});
            pick(v, name(c), r);
            (*g_unasked)[fd] = r.ret < 0 && (r.err == EINPROGRESS || r.err == EINTR);
            break;
        case Call::PeerName:
            if ((*g_unasked)[fd]) v.push_back({0, 0});
            if ((*g_unasked)[fd] && u.hard) v.push_back({-1, ENOTCONN});
            if (v.empty()) break;
            (*g_unasked)[fd] = false;
            pick(v, name(c), r);
            break;
        case Call::GetOption:
            (*g_unasked)[fd] = false;
            v = {{0, 0}};
            if (u.hard) { v.push_back({ECONNREFUSED, 0}); v.push_back({-1, ENOTSOCK}); }
            pick(v, name(c), r);
            break;
        default: break;
    }
    if (c == Call::Send || c == Call::SendTo || c == Call::Recv || c == Call::RecvFrom || c == Call::Accept || c == Call::GetOption || c == Call::PeerName || c == Call::Connect)
    {
        bool broken = r.ret < 0 && r.err != EAGAIN && r.err != EINPROGRESS && !(c == Call::Connect && r.err == EINTR);
        if (r.ret == 0 && (c == Call::Recv || (c == Call::Send && n > 0))) broken = true;
        if (c == Call::GetOption && r.ret != 0) broken = true;
        if (broken)
        {
            (*g_broken)[fd] = true;
            bool const reads = c == Call::Recv || c == Call::RecvFrom || c == Call::Accept;
            if (!(c == Call::Connect && r.err != EINTR)) (reads ? g_met->first : g_met->second).insert(fd);
        }
    }
    return r;
}
VSOCK_RAW int vsock::decide_select(std::set<int> &reading, std::set<int> &writing, std::int64_t timeout)
{
    mc::visible(g_world, "select");
    Rules &u = *g_rules;
    bool sleep = false;
    {
        mc::Ignore ig;
        std::vector<std::pair<int, int>> want;
        for (int fd : writing) want.push_back({1, fd});
        for (int fd : reading) want.push_back({0, fd});
        for (auto const &[kind, fd] : want)
        {
            Fd *f = of(fd);
            if (f == nullptr || !f->open)
            {
                if (++g_busy > 50) mc::fail("stuck poll", "the poll call keeps failing because the closed descriptor %d is still polled", fd);
                errno = EBADF;
                return -1;
            }
        }
        g_busy = 0;
        int const k = static_cast<int>(want.size());
        int const subsets = k == 0 ? 0 : u.orders ? std::min((1 << k) - 1, 11) : 1;
        int const extra = u.stalls > 0 ? 1 + (u.interrupts > 0 ? 1 : 0) : 0;
        int const c = mc::choose(subsets + extra, "ready");
        reading.clear();
        writing.clear();
        if (c < subsets)
        {
            int const mask = (1 << k) - 1 - c;   // 0: everything is ready
            for (int i = 0; i < k; ++i) if (mask >> i & 1) (want[static_cast<std::size_t>(i)].first ? writing : reading).insert(want[static_cast<std::size_t>(i)].second);
            return static_cast<int>(reading.size() + writing.size());
        }
        if (k > 0) --u.stalls;
        if (c == subsets + 1) { --u.interrupts; errno = EINTR; return -1; }
        sleep = true;
    }
    if (sleep) mc::block_until([] { return false; }, "select", mc::now_ns() + timeout * 1000);
    return 0;
}

namespace {

char const *const TEXT = "abcdefghijklmnopqrstuvwxyz";

struct Op
{
    enum Kind { Send, SendTo, Recv, RecvFrom, Connect, Accept } kind;
    int id, sock, fd;
    std::string message;
    std::string to;
    bool accepted {false};      // the call returned true (or said connecting)
    int done {0};
    std::string data;           // what a receive delivered
    std::size_t count {0};      // what a send reported
    bool open_after {true};
    std::size_t sent_before {0};
};

struct World
{
    Rules rules;
    vsock::World net;
    std::map<int, std::vector<std::string>> delivered;
    std::map<int, bool> broken, unasked;
    std::pair<std::set<int>, std::set<int>> met;
    std::set<int> user_closed;
    std::shared_ptr<fly::logger::Logger> logger;
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<SequencedTaskRunner> runner;
    std::shared_ptr<Config> config;
    std::shared_ptr<SocketService> service;
    std::vector<std::shared_ptr<Tcp>> tcp;
    std::vector<std::shared_ptr<Udp>> udp;
    std::shared_ptr<TcpSocket<EP6>> tcp6;
    std::vector<std::shared_ptr<Listener>> listeners;
    std::deque<Op> ops;
    std::map<int, std::vector<int>> by_fd_w, by_fd_r;
    int inside {0};
    long shared {0};
    int main_thread {0};
    std::size_t packet;
    EP4 ep {*IPv4Address::from_string("1.2.3.4"), 4660};
    int connects_done {0};
    bool raced {false};          // a thread closes the socket at any time
    std::function<void(Op &)> extra;

    explicit World(std::size_t packet_size = 2, std::uint32_t workers = 1, int first = 100) : config(std::make_shared<Config>(packet_size)), packet(packet_size)
    {
        g_rules = &rules;
        g_delivered = &delivered;
        g_broken = &broken;
        g_unasked = &unasked;
        g_met = &met;
        g_busy = 0;
        net.first = net.next = first;
        vsock::g_world = &net;
        main_thread = mc::self();
        // a logger that stopped: logging is not of interest here
        logger = fly::logger::Logger::create("none", std::make_shared<fly::logger::LoggerConfig>(), std::make_unique<FailingSink>());
        fly::logger::Logger::set_default_logger(logger);
        LOGD("{}", 1);
        manager = TaskManager::create(workers);
        runner = SequencedTaskRunner::create(manager);
        service = SocketService::create(runner, config);
    }
    ~World() { vsock::g_world = nullptr; }

    // ---- callbacks
    template <typename S>
    void enter(Op &op, std::shared_ptr<S> const &, bool open, socket_type handle)
    {
        mc::visible(&ops, "callback");
        ++shared;    // plain: a race unless callbacks are ordered
        mc::Ignore ig;
        mc::check(inside == 0, "overlap", "the callback of operation %d runs while another one is running", op.id);
        ++inside;
        mc::check(mc::self() != main_thread, "thread", "the callback of operation %d runs on the thread that issued it", op.id);
        mc::check(++op.done == 1, "twice", "the callback of operation %d ran twice", op.id);
        mc::check(op.accepted || true, "refused", "the callback of operation %d ran though it was refused", op.id);
        op.open_after = open;
        if (broken[op.fd]) mc::check(!open, "open after error", "the socket of operation %d is still open when its callback reports an error", op.id);
        else if (!user_closed.count(op.fd)) mc::check(open, "closed without error", "the socket of operation %d is closed though nothing failed", op.id);
        vsock::Fd *f = vsock::of(op.fd);
        if (!raced) mc::check(open == f->open, "open", "the socket of operation %d says it is %s, its descriptor is %s", op.id, open ? "open" : "closed", f->open ? "open" : "closed");
        mc::check(!open || handle == op.fd, "handle", "the socket of operation %d has the descriptor %d instead of %d", op.id, handle, op.fd);
        // operations of one direction complete in the order they were issued
        auto &order = writes(op) ? by_fd_w[op.fd] : by_fd_r[op.fd];
        for (int other : order)
        {
            if (other == op.id) break;
            mc::check(ops[static_cast<std::size_t>(other)].done > 0, "order", "operation %d completes before operation %d of the same socket", op.id, other);
        }
        mc::note("callback of %d", op.id);
    }
    void leave(Op &op)
    {
        if (extra) extra(op);
        mc::Ignore ig;
        --inside;
    }
    static bool writes(Op const &op) { return op.kind == Op::Send || op.kind == Op::SendTo || op.kind == Op::Connect; }
    Op &issue(Op::Kind kind, int sock, int fd, std::string message = "")
    {
        mc::Ignore ig;
        int const id = static_cast<int>(ops.size());
        ops.push_back({kind, id, sock, fd, std::move(message), ""});
        Op &op = ops.back();
        (writes(op) ? by_fd_w : by_fd_r)[fd].push_back(id);
        return op;
    }
    void withdraw(Op &op)
    {
        mc::Ignore ig;
        auto &v = (writes(op) ? by_fd_w : by_fd_r)[op.fd];
        std::erase(v, op.id);
    }
    void issued(Op &op, bool ok)
    {
        {
            mc::Ignore ig;
            op.accepted = ok;
        }
        if (!ok) withdraw(op);
    }
    template <typename S>
    void send_on(std::shared_ptr<S> s, int sock, std::string text)
    {
        Op &op = issue(std::is_same_v<S, Udp> ? Op::SendTo : Op::Send, sock, s->handle(), std::move(text));
        auto done = [this, &op, weak = std::weak_ptr<S>(s)](std::size_t n) {
            auto self = weak.lock();
            enter(op, self, self->is_open(), self->handle());
            op.count = n;
            leave(op);
        };
        bool ok;
        if constexpr (std::is_same_v<S, Udp>) ok = s->send_async(ep, op.message, std::move(done));
        else ok = s->send_async(op.message, std::move(done));
        issued(op, ok);
    }
    template <typename S>
    void receive_on(std::shared_ptr<S> s, int sock)
    {
        Op &op = issue(std::is_same_v<S, Udp> ? Op::RecvFrom : Op::Recv, sock, s->handle());
        bool const ok = s->receive_async([this, &op, weak = std::weak_ptr<S>(s)](std::string data) {
            auto self = weak.lock();
            enter(op, self, self->is_open(), self->handle());
            {
                mc::Ignore ig;
                op.data = data;
            }
            leave(op);
        });
        issued(op, ok);
    }
    std::optional<ConnectedState> connect_on(std::shared_ptr<Tcp> s, int sock)
    {
        Op &op = issue(Op::Connect, sock, s->handle());
        auto const state = s->connect_async(ep, [this, &op, weak = std::weak_ptr<Tcp>(s)](ConnectedState st) {
            auto self = weak.lock();
            enter(op, self, self->is_open(), self->handle());
            bool const connected = self->is_connected(), connecting = self->is_connecting();
            {
                mc::Ignore ig;
                op.count = static_cast<std::size_t>(st);
                mc::check(st != ConnectedState::Connecting, "connect result", "a connection completes as still connecting");
                mc::check((st == ConnectedState::Connected) == self->is_open(), "connect result", "a connection completes as %s but the socket is %s", st == ConnectedState::Connected ? "connected" : "failed", self->is_open() ? "open" : "closed");
                mc::check(connected == (st == ConnectedState::Connected) && !connecting, "connected", "is_connected is %d and is_connecting %d when the connection completes as %d", connected, connecting, static_cast<int>(st));
                if (unasked[op.fd] && rules.hard) mc::check(st == ConnectedState::Disconnected, "connect result", "a connection completes as connected though the system was never asked how it ended, and it may have failed");
                else mc::check(broken[op.fd] == (st == ConnectedState::Disconnected), "connect result", "the system's answer and the result of a connection differ");
            }
            leave(op);
        });
        bool const waits = state == ConnectedState::Connecting;
        {
            mc::Ignore ig;
            auto *f = vsock::of(op.fd);
            if (f != nullptr) mc::check(f->peer == "1.2.3.4:4660", "connect to", "connected to %s", f->peer.c_str());
            if (!waits) mc::check((state == ConnectedState::Disconnected) == !s->is_open(), "connect", "connect says %d, the socket is %s", static_cast<int>(state), s->is_open() ? "open" : "closed");
        }
        issued(op, waits);
        return state;
    }
    void accept_on(std::shared_ptr<Listener> s, int sock)
    {
        Op &op = issue(Op::Accept, sock, s->handle());
        bool const ok = s->accept_async([this, &op, weak = std::weak_ptr<Listener>(s)](std::shared_ptr<Tcp> client) {
            auto self = weak.lock();
            enter(op, self, self->is_open(), self->handle());
            {
                mc::Ignore ig;
                mc::check((client != nullptr) == !broken[op.fd], "accept", "accept %s but the callback gets %s", broken[op.fd] ? "failed" : "succeeded", client ? "a socket" : "nothing");
                if (client)
                {
                    mc::check(client->handle() == net.next - 1, "accept", "the accepted socket has the descriptor %d instead of %d", client->handle(), net.next - 1);
                    mc::check(client->is_open() && client->is_connected(), "accept", "the accepted socket is not connected");
                    mc::check(vsock::of(client->handle())->nonblock, "accept", "the accepted socket is in blocking mode");
                    mc::check(client->io_mode() == IOMode::Asynchronous, "accept", "the accepted socket says it is synchronous");
                }
            }
            if (client) { tcp.push_back(client); ++connects_done; }
            leave(op);
        });
        issued(op, ok);
    }

    // ---- the end
    bool settled()
    {
        for (Op const &op : ops)
        {
            if (!op.accepted || op.done > 0) continue;
            vsock::Fd *f = vsock::of(op.fd);
            if (f->open) return false;
        }
        return inside == 0;
    }
    void wait()
    {
        mc::block_until([this] { return settled(); }, "the operations to complete");
        mc::visible(&ops, "settled");
        // what the callbacks left behind
        std::shared_ptr<TaskManager> m = manager;
    }
    // nothing may happen any more; everything is compared
    void finish(bool drop = true)
    {
        wait();
        // let the sequence run dry, so that late callbacks are seen
        mc::Log ran;
        for (int i = 0; i < 2; ++i) runner->post_task(FROM_HERE, [&ran] { ran.add(1); });
        ran.wait(2, "the sequence to run dry");
        compare();
        std::vector<int> open;
        if (drop)
        {
            tcp.clear();
            udp.clear();
            tcp6.reset();
            listeners.clear();
            mc::Ignore ig;
            for (auto &[fd, f] : net.fds) mc::check(!f.open, "leak", "the descriptor %d is still open when all sockets are gone", fd);
        }
        mc::check(manager->stop(), "stop", "stop reported false");
        service.reset();
        mc::Ignore ig;
        if (!net.bad.empty()) mc::fail("descriptor", "%s", net.bad.front().c_str());
    }
    void compare()
    {
        mc::Ignore ig;
        for (Op const &op : ops)
        {
            vsock::Fd *f = vsock::of(op.fd);
            if (!op.accepted && op.kind != Op::Connect) mc::check(op.done == 0, "refused", "the callback of operation %d ran though it was refused", op.id);
            if (op.accepted && op.done == 0) mc::check(f != nullptr && !f->open, "never", "operation %d never completed though its socket is open", op.id);
        }
        // whoever met a hard error is told
        for (bool w : {false, true})
            for (int fd : w ? met.second : met.first)
            {
                bool told = false;
                for (int id : w ? by_fd_w[fd] : by_fd_r[fd]) told = told || (ops[static_cast<std::size_t>(id)].done > 0 && !ops[static_cast<std::size_t>(id)].open_after);
                mc::check(told, "untold", "%s on the descriptor %d met a hard error, but no callback reported it", w ? "writing" : "reading", fd);
            }
        for (auto &[fd, f] : net.fds)
        {
            // bytes handed over: the prefixes the callbacks reported, in order
            std::string want;
            bool rest = false;
            std::string tail;
            for (int id : by_fd_w[fd])
            {
                Op const &op = ops[static_cast<std::size_t>(id)];
                if (op.kind == Op::Connect) continue;
                if (op.done == 0) { if (!rest) tail = op.message; rest = true; continue; }
                mc::check(!rest, "order", "operation %d completed though an earlier one did not", id);
                mc::check(op.count <= op.message.size(), "count", "operation %d says it sent %zu of %zu bytes", id, op.count, op.message.size());
                if (op.open_after) mc::check(op.count == op.message.size(), "short", "operation %d sent %zu of %zu bytes and left the socket open", id, op.count, op.message.size());
                want += op.message.substr(0, op.count);
            }
            bool ok = f.sent.compare(0, want.size(), want) == 0;
            if (ok)
            {
                std::string const more = f.sent.substr(std::min(f.sent.size(), want.size()));
                ok = more.empty() || (rest && tail.compare(0, more.size(), more) == 0);
            }
            mc::check(ok, "bytes", "the bytes '%s' were handed over, the callbacks say '%s'", f.sent.c_str(), want.c_str());
            for (auto const &g : f.grams) mc::check(g.size() <= packet, "packet", "a datagram of %zu bytes, the packet size is %zu", g.size(), packet);
            for (auto const &t : f.to) mc::check(t == "1.2.3.4:4660", "to", "a datagram went to %s", t.c_str());
            // what was received reached the callbacks, in order
            std::string got, sys;
            for (int id : by_fd_r[fd]) if (ops[static_cast<std::size_t>(id)].done) got += ops[static_cast<std::size_t>(id)].data;
            for (auto const &d : f.got) sys += d;
            mc::check(got == sys, "received", "the system delivered %s, the callbacks got %s", hex(sys).c_str(), hex(got).c_str());
            if (f.type == SOCK_DGRAM)
            {
                std::size_t i = 0;
                for (int id : by_fd_r[fd])
                {
                    Op const &op = ops[static_cast<std::size_t>(id)];
                    if (!op.done || (broken[fd] && i == f.got.size())) continue;
                    mc::check(i < f.got.size() && f.got[i] == op.data, "datagram", "operation %d got %s instead of the datagram %zu", id, hex(op.data).c_str(), i);
                    ++i;
                }
            }
        }
        mc::check(shared == static_cast<long>(completed()), "lost update", "the callbacks counted to %ld, %zu ran", shared, completed());
    }
    std::size_t completed() const
    {
        std::size_t n = 0;
        for (Op const &op : ops) n += static_cast<std::size_t>(op.done);
        return n;
    }
    static std::string hex(std::string const &s)
    {
        std::string r;
        char b[8];
        for (unsigned char c : s) { std::snprintf(b, sizeof b, "%02x ", c); r += b; }
        return r.empty() ? "nothing" : r;
    }
    std::shared_ptr<Tcp> add_tcp() { auto s = service->create_socket<Tcp>(); tcp.push_back(s); return s; }
    std::shared_ptr<Udp> add_udp() { auto s = service->create_socket<Udp>(); udp.push_back(s); return s; }
    std::shared_ptr<Listener> add_listener()
    {
        auto s = service->create_socket<Listener>();
        mc::check(s->bind(ep, BindMode::AllowReuse) && s->listen(), "listen", "the virtual listen failed");
        listeners.push_back(s);
        return s;
    }
};

void add(std::string const &name, int quick, int thorough, std::function<void()> body)
{
    mc::Opt o;
    o.quick = quick;
    o.thorough = thorough;
    o.max_idle = 2000;
    mc::program(name, o, std::move(body));
}
std::string text(int from, int n) { return std::string(TEXT + from, static_cast<std::size_t>(n)); }

} // namespace

void programs()
{
    bool const T = mc::thorough();
    // ---- outcomes of one operation
    for (int first : {100, 1022, 1024})
    {
        bool const low = first == 100;
        std::string const at = low ? "" : " at descriptor " + std::to_string(first);
        int const most = low ? (T ? 5 : 4) : 2;
        add("tcp send" + at, 0, 0, [=] {
            World w(2, 1, first);
            w.rules.fine = low;
            w.rules.blocks = 2;
            auto s = w.add_tcp();
            w.send_on(s, 0, text(0, mc::choose(most + 1, "size")));
            s.reset();
            w.finish();
        });
        add("udp send" + at, 0, 0, [=] {
            World w(low ? static_cast<std::size_t>(1 + mc::choose(3, "packet")) : 2, 1, first);
            w.rules.fine = low && T;
            w.rules.blocks = 2;
            auto s = w.add_udp();
            w.send_on(s, 0, text(0, mc::choose(most + 1, "size")));
            s.reset();
            w.finish();
        });
        add("tcp receive" + at, 0, 0, [=] {
            World w(static_cast<std::size_t>(1 + mc::choose(3, "packet")), 1, first);
            w.rules.fine = true;
            w.rules.blocks = 2;
            w.rules.stalls = 2;
            auto s = w.add_tcp();
            w.receive_on(s, 0);
            s.reset();
            w.finish();
        });
        add("udp receive" + at, 0, 0, [=] {
            World w(static_cast<std::size_t>(1 + mc::choose(3, "packet")), 1, first);
            w.rules.fine = true;
            w.rules.blocks = 2;
            w.rules.stalls = 2;
            auto s = w.add_udp();
            w.receive_on(s, 0);
            s.reset();
            w.finish();
        });
        add("connect" + at, 0, 0, [=] {
            World w(2, 1, first);
            w.rules.stalls = 2;
            auto s = w.add_tcp();
            w.connect_on(s, 0);
            s.reset();
            w.finish();
        });
        add("accept" + at, 0, 0, [=] {
            World w(2, 1, first);
            w.rules.blocks = 2;
            w.rules.stalls = 2;
            auto s = w.add_listener();
            w.accept_on(s, 0);
            w.accept_on(s, 0);
            s.reset();
            w.finish();
        });
    }
    // ---- long messages
    for (int n : T ? std::vector<int> {100, 255, 256, 1023, 1024, 1025, 1499, 1500, 1501, 4096, 8193, 65535, 65536, 70001} : std::vector<int> {256, 1500, 4097, 65537})
    {
        auto body = [](int k) { std::string t(static_cast<std::size_t>(k), ' '); for (int i = 0; i < k; ++i) t[static_cast<std::size_t>(i)] = static_cast<char>(i * 131 + i / 251); return t; };
        std::string const at = " of " + std::to_string(n);
        add("tcp send" + at, 0, 0, [=] {
            World w(1500);
            w.rules.halves = true;
            w.rules.stalls = 0;
            auto s = w.add_tcp();
            w.send_on(s, 0, body(n));
            if (T) w.send_on(s, 0, body(n / 3));
            s.reset();
            w.finish();
        });
        add("udp send" + at, 0, 0, [=] {
            World w(static_cast<std::size_t>(n / 2 - 1 + mc::choose(3, "packet")));
            w.rules.halves = true;
            w.rules.stalls = 0;
            auto s = w.add_udp();
            w.send_on(s, 0, body(n));
            s.reset();
            w.finish();
        });
        add("tcp receive" + at, 0, 0, [=] {
            World w(static_cast<std::size_t>(n));
            w.rules.halves = true;
            w.rules.stalls = 0;
            auto s = w.add_tcp();
            w.receive_on(s, 0);
            w.receive_on(s, 0);
            s.reset();
            w.finish();
        });
        add("udp receive" + at, 0, 0, [=] {
            World w(static_cast<std::size_t>(n));
            w.rules.halves = true;
            w.rules.stalls = 0;
            auto s = w.add_udp();
            w.receive_on(s, 0);
            s.reset();
            w.finish();
        });
    }
    // ---- several operations on one socket
    add("two tcp sends", 0, 0, [=] {
        World w;
        w.rules.blocks = T ? 3 : 2;
        auto s = w.add_tcp();
        int const n = 1 + mc::choose(T ? 3 : 2, "size");
        w.send_on(s, 0, text(0, n));
        w.send_on(s, 0, text(8, 2));
        s.reset();
        w.finish();
    });
    add("three tcp sends", 0, 0, [=] {
        World w;
        
        w.rules.blocks = T ? 3 : 2;
        auto s = w.add_tcp();
        w.send_on(s, 0, text(0, 2));
        w.send_on(s, 0, text(8, 1));
        w.send_on(s, 0, text(16, 2));
        s.reset();
        w.finish();
    });
    add("two udp sends", 0, 0, [=] {
        World w;
        w.rules.blocks = T ? 3 : 2;
        auto s = w.add_udp();
        w.send_on(s, 0, text(0, 3));
        w.send_on(s, 0, text(8, 2));
        s.reset();
        w.finish();
    });
    add("two tcp receives", 0, 0, [=] {
        World w;
        w.rules.blocks = 2;
        auto s = w.add_tcp();
        w.receive_on(s, 0);
        w.receive_on(s, 0);
        s.reset();
        w.finish();
    });
    add("three udp receives", 0, 0, [=] {
        World w;
        w.rules.blocks = T ? 3 : 2;
        auto s = w.add_udp();
        for (int i = 0; i < 3; ++i) w.receive_on(s, 0);
        s.reset();
        w.finish();
    });
    add("ipv6 tcp send and receive", 0, 0, [=] {
        World w;
        auto s = w.service->create_socket<TcpSocket<EP6>>();
        w.tcp6 = s;
        w.send_on(s, 0, text(0, 2));
        w.receive_on(s, 0);
        s.reset();
        w.finish();
    });
    add("tcp send and receive", 0, 0, [=] {
        World w;
        w.rules.blocks = T ? 3 : 2;
        auto s = w.add_tcp();
        w.send_on(s, 0, text(0, 2));
        w.receive_on(s, 0);
        s.reset();
        w.finish();
    });
    add("connect, then send and receive queued", 0, 0, [=] {
        World w;
        w.rules.stalls = T ? 2 : 1;
        auto s = w.add_tcp();
        w.connect_on(s, 0);
        w.send_on(s, 0, text(0, 2));
        w.receive_on(s, 0);
        s.reset();
        w.finish();
    });
    // ---- several sockets
    add("two sockets sending", 0, 0, [=] {
        World w(2, 1, 1023);
        w.rules.stalls = T ? 2 : 1;
        auto a = w.add_tcp();
        auto b = w.add_tcp();
        w.send_on(a, 0, text(0, 2));
        w.send_on(b, 1, text(8, 2));
        a.reset();
        b.reset();
        w.finish();
    });
    add("a socket sending, another one receiving, a listener", 0, 0, [=] {
        World w;
        w.rules.blocks = T ? 2 : 1;
        w.rules.stalls = T ? 2 : 1;
        auto a = w.add_udp();
        auto b = w.add_tcp();
        auto c = w.add_listener();
        w.send_on(a, 0, text(0, 2));
        w.receive_on(b, 1);
        w.accept_on(c, 2);
        a.reset();
        b.reset();
        c.reset();
        w.finish();
    });
    add("all sequences of three operations over a stream and a datagram socket", 0, 0, [=] {
        World w;
        w.rules.stalls = T ? 1 : 0;
        auto a = w.add_tcp();
        auto b = w.add_udp();
        for (int i = 0; i < 3; ++i)
        {
            switch (mc::choose(4, "operation"))
            {
                case 0: w.send_on(a, 0, text(8 * i, 2)); break;
                case 1: w.receive_on(a, 0); break;
                case 2: w.send_on(b, 1, text(8 * i, 2)); break;
                default: w.receive_on(b, 1); break;
            }
        }
        a.reset();
        b.reset();
        w.finish();
    });
    // ---- callbacks which do something
    add("echo: received bytes are sent from the callback", 0, 0, [=] {
        World w;
        auto s = w.add_tcp();
        w.extra = [&](Op &op) {
            if (op.kind == Op::Recv && w.tcp[0]->is_open()) w.send_on(w.tcp[0], 0, "E" + std::to_string(op.data.size()));
            else if (op.kind == Op::Recv) w.send_on(w.tcp[0], 0, "refused");
        };
        w.receive_on(s, 0);
        w.send_on(s, 0, text(0, 1));
        s.reset();
        w.finish();
    });
    add("accepted sockets receive", 0, 0, [=] {
        World w;
        w.rules.stalls = 0;
        auto s = w.add_listener();
        w.extra = [&](Op &op) {
            if (op.kind == Op::Accept && w.tcp.size() == 1) w.receive_on(w.tcp[0], 1);
        };
        w.accept_on(s, 0);
        s.reset();
        w.finish();
    });
    add("a callback closes its socket with operations pending", 0, 0, [=] {
        World w;
        auto s = w.add_tcp();
        auto b = w.add_tcp();
        w.extra = [&](Op &op) {
            if (op.id == 0) { w.user_closed.insert(op.fd); w.tcp[0]->close(); mc::check(!w.tcp[0]->is_connected(), "connected", "a closed socket is connected"); }
        };
        w.send_on(s, 0, text(0, 2));
        w.send_on(s, 0, text(8, 1));
        w.receive_on(s, 0);
        w.receive_on(b, 1);
        s.reset();
        b.reset();
        w.finish();
    });
    add("a callback closes another socket with operations pending", 0, 0, [=] {
        World w;
        w.rules.stalls = T ? 2 : 1;
        auto s = w.add_tcp();
        auto b = w.add_tcp();
        w.extra = [&](Op &op) {
            if (op.id == 0) { w.user_closed.insert(w.tcp[1]->handle()); w.tcp[1]->close(); }
        };
        w.send_on(s, 0, text(0, 1));
        w.send_on(b, 1, text(8, 2));
        w.receive_on(b, 1);
        s.reset();
        b.reset();
        w.finish();
    });
    add("a callback drops the last reference to its socket", 0, 0, [=] {
        World w;
        
        auto s = w.add_tcp();
        w.extra = [&](Op &op) {
            if (op.id == 0) w.tcp[0].reset();
        };
        w.send_on(s, 0, text(0, 2));
        w.send_on(s, 0, text(8, 1));
        w.receive_on(s, 0);
        s.reset();
        w.finish();
    });
    // ---- races between the issuing thread and the sequence
    add("sockets are dropped while operations are pending", 1, 2, [=] {
        World w;
        w.rules.hard = false;
        w.rules.stalls = 0;
        {
            auto s = w.add_tcp();
            w.send_on(s, 0, text(0, 2));
            w.receive_on(s, 0);
        }
        auto b = w.add_tcp();
        w.receive_on(b, 1);
        w.tcp[0].reset();
        b.reset();
        w.finish();
    });
    add("operations are issued while earlier ones fail", 1, 2, [=] {
        World w;
        w.rules.blocks = 0;
        w.rules.stalls = 0;
        w.rules.orders = false;
        auto s = w.add_tcp();
        auto b = w.add_tcp();
        w.receive_on(b, 1);
        w.send_on(s, 0, text(0, 1));
        w.send_on(s, 0, text(8, 1));
        w.receive_on(b, 1);
        s.reset();
        b.reset();
        w.finish();
    });
    add("a thread closes a socket while its operations run", 1, 2, [=] {
        World w;
        w.rules.stalls = 0;
        w.rules.orders = false;
        w.raced = w.net.lenient = true;
        auto s = w.add_tcp();
        w.user_closed.insert(s->handle());
        int const what = mc::choose(2, "operation");
        if (what == 0) w.send_on(s, 0, text(0, 1));
        else w.receive_on(s, 0);
        s->close();
        mc::check(!s->is_open(), "close", "a closed socket is open");
        s.reset();
        w.finish();
    });
    for (int kind : {0, 1})
        add("a descriptor is used again by another thread, " + std::string(kind == 0 ? "stream" : "datagram"), 1, 2, [=] {
            World w;
            w.rules.blocks = 0;
            w.rules.stalls = 1;
            w.rules.orders = false;
            w.rules.hard = false;
            w.net.reuse = true;
            auto a = w.service->create_socket<Tcp>();
            std::shared_ptr<Tcp> b;
            std::shared_ptr<Udp> c;
            std::thread t([&] {
                if (kind == 1) { c = w.service->create_socket<Udp>(); w.receive_on(c, 1); }
                else { b = w.service->create_socket<Tcp>(); w.receive_on(b, 1); }
            });
            a.reset();
            t.join();
            if (b) w.tcp.push_back(b);
            if (c) w.udp.push_back(c);
            b.reset();
            c.reset();
            w.finish();
        });
    add("two threads issue on their own sockets", 1, 2, [=] {
        World w;
        w.rules.blocks = 0;
        w.rules.stalls = 0;
        w.rules.hard = false;
        w.rules.orders = false;
        auto a = w.add_tcp();
        auto b = w.add_udp();
        std::thread t([&] { w.send_on(b, 1, text(8, 2)); w.receive_on(b, 1); });
        w.send_on(a, 0, text(0, 1));
        w.receive_on(a, 0);
        t.join();
        a.reset();
        b.reset();
        w.finish();
    });
    add("two threads open sockets and issue, two workers", 1, 2, [=] {
        World w(2, 2);
        w.rules.blocks = 0;
        w.rules.stalls = 0;
        w.rules.hard = false;
        w.rules.orders = false;
        std::shared_ptr<Tcp> a, b;
        std::thread t([&] { b = w.service->create_socket<Tcp>(); w.send_on(b, 1, text(8, 1)); });
        a = w.service->create_socket<Tcp>();
        w.receive_on(a, 0);
        t.join();
        w.tcp = {a, b};
        a.reset();
        b.reset();
        w.finish();
    });
}
