// C11: synchronous sockets over a virtual socket layer — every outcome of every system call, and every
// sequence of operations over two sockets up to a depth, against a model of who owns which descriptor.
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/net/network_config.hpp"
#include "fly/net/socket/listen_socket.hpp"
#include "fly/net/socket/tcp_socket.hpp"
#include "fly/net/socket/udp_socket.hpp"
#include "mc_enum.hpp"
#include "gen.hpp"
#include "vsock.hpp"

#include <optional>

using namespace fly::net;
using vsock::Call;
using vsock::Result;

namespace {

struct Chooser
{
    std::vector<int> pick, size;
    std::size_t pos {0};
    int choose(int n)
    {
        if (pos == pick.size()) { pick.push_back(0); size.push_back(n); }
        return pick[pos++];
    }
    // to the next sequence which differs behind the first keep choices
    bool next(std::size_t keep = 0)
    {
        pick.resize(pos);
        size.resize(pos);
        while (pick.size() > keep && pick.back() + 1 >= size.back()) { pick.pop_back(); size.pop_back(); }
        pos = 0;
        if (pick.size() <= keep) return false;
        ++pick.back();
        return true;
    }
};
Chooser *g_choose;
bool g_fine;    // all outcomes of the transfer calls
bool g_halves;  // the whole, a half, all but one, and failures
struct Seen { Call call; int fd; std::size_t n; Result r; };
std::vector<Seen> g_seen;
std::string g_log;

struct NullSink : fly::logger::Sink
{
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&) override { return true; }
};
struct Config : NetworkConfig
{
    explicit Config(std::size_t p) { m_default_packet_size = p; }
};

} // namespace

void vsock::at(Call, int) {}
int vsock::decide_select(std::set<int> &, std::set<int> &, std::int64_t) { return 0; }

static Result outcomes(Call c, std::size_t n)
{
    auto pick = [](std::vector<Result> const &v) { return v[static_cast<std::size_t>(g_choose->choose(static_cast<int>(v.size())))]; };
    long const k = static_cast<long>(n);
    std::vector<Result> v;
    switch (c)
    {
        case Call::Socket: return pick({{0, 0}, {-1, EMFILE}});
        case Call::GetFlags:
        case Call::SetFlags: return pick({{0, 0}, {-1, EPERM}});
        case Call::SetOption: return pick({{0, 0}, {-1, ENOPROTOOPT}});
        case Call::Bind:
        case Call::Listen: return pick({{0, 0}, {-1, EADDRINUSE}});
        case Call::Accept: return g_fine ? pick({{0, 0}, {-1, EAGAIN}, {-1, ECONNABORTED}, {-1, EINTR}, {-1, EMFILE}}) : pick({{0, 0}, {-1, EAGAIN}, {-1, ECONNABORTED}});
        case Call::Connect: return pick({{0, 0}, {-1, EINPROGRESS}, {-1, EINTR}, {-1, ECONNREFUSED}});
        case Call::Send:
        case Call::SendTo:
            if (g_halves) return k > 1 ? pick({{k, 0}, {(k + 1) / 2, 0}, {-1, EAGAIN}, {-1, EPIPE}}) : pick({{k, 0}, {-1, EAGAIN}, {-1, EPIPE}});
            if (g_fine)
            {
                for (long i = k; i >= 0; --i) v.push_back({i, 0});
                for (int e : {EAGAIN, EINTR, EPIPE}) v.push_back({-1, e});
                return pick(v);
            }
            return k > 1 ? pick({{k, 0}, {1, 0}, {-1, EAGAIN}, {-1, EPIPE}}) : pick({{k, 0}, {-1, EAGAIN}, {-1, EPIPE}});
        case Call::Recv:
        case Call::RecvFrom:
            if (g_halves) return k > 1 ? pick({{k, 0}, {k - 1, 0}, {(k + 1) / 2, 0}, {1, 0}, {0, 0}, {-1, ECONNRESET}}) : pick({{k, 0}, {0, 0}, {-1, ECONNRESET}});
            if (g_fine)
            {
                for (long i = k; i >= 0; --i) v.push_back({i, 0});
                for (int e : {EAGAIN, EINTR, ECONNRESET}) v.push_back({-1, e});
                return pick(v);
            }
            return pick({{std::min(k, 2L), 0}, {0, 0}, {-1, EAGAIN}, {-1, ECONNRESET}});
        case Call::SockName:
        case Call::PeerName: return pick({{0, 0}, {-1, ENOTCONN}});
        case Call::Resolve: return pick({{0, 0}, {-1, 0}});
        default: return {0, 0};
    }
}
Result vsock::decide(Call c, int fd, std::size_t n)
{
    // whoever goes on after several calls which transferred nothing is stopped (and reported by sent())
    std::size_t nothing = 0;
    if (c == Call::Send || c == Call::SendTo) for (auto const &e : g_seen) nothing += e.call == c && e.r.ret <= 0;
    Result const r = nothing >= 2 ? Result {-1, EPIPE} : outcomes(c, n);
    g_seen.push_back({c, fd, n, r});
    if (r.ret < 0) g_log += std::string("(") + name(c) + "=" + strerrorname_np(r.err) + ")";
    else if (c == Call::Send || c == Call::SendTo || c == Call::Recv || c == Call::RecvFrom) g_log += std::string("(") + name(c) + "=" + std::to_string(r.ret) + ")";
    return r;
}

namespace {

// ---- the model of one socket
struct Model
{
    bool exists {false}, moved {false};
    int fd {-1};
    bool nonblock {false};
    ConnectedState conn {ConnectedState::Disconnected};
    bool listening {false};
    void shut() { fd = -1; conn = ConnectedState::Disconnected; listening = false; }
};

Seen const *last(Call c)
{
    for (std::size_t i = g_seen.size(); i-- > 0;) if (g_seen[i].call == c) return &g_seen[i];
    return nullptr;
}
bool ok(Call c) { auto *s = last(c); return s != nullptr && s->r.ret >= 0; }

std::string const ALL = "abcdefghijklmnopqrstuvwxyz";

template <typename EP>
std::vector<EP> endpoints()
{
    if constexpr (EP::is_ipv4())
    {
        std::vector<EP> v;
        std::pair<char const *, unsigned short> const a[] = {{"127.0.0.1", 4389}, {"1.2.3.4", 0}, {"255.255.255.255", 65535}, {"0.0.0.0", 255}, {"10.0.0.0", 256}};
        for (auto const &[t, port] : a) v.push_back(EP(*IPv4Address::from_string(t), port));
        return v;
    }
    else
    {
        std::array<std::uint16_t, 8> a {1, 2, 3, 4, 5, 6, 7, 8}, f {0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff}, z {}, l {0, 0, 0, 0, 0, 0, 0, 1};
        std::vector<EP> v;
        unsigned short const ports[] = {4389, 0, 65535, 255};
        int i = 0;
        for (auto const &g : {l, a, f, z}) v.push_back(EP(*IPv6Address::from_string([&] { std::string s; char b[8]; for (int k = 0; k < 8; ++k) { std::snprintf(b, sizeof b, "%s%x", k ? ":" : "", g[static_cast<std::size_t>(k)]); s += b; } return s; }()), ports[i++]));
        return v;
    }
}
// the text of an end point, written independently of the library's formatter
std::string want_text(bool v4, int which)
{
    static char const *const a[] = {"127.0.0.1:4389", "1.2.3.4:0", "255.255.255.255:65535", "0.0.0.0:255", "10.0.0.0:256"};
    static char const *const b[] = {"[::1]:4389", "[1:2:3:4:5:6:7:8]:0", "[ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff]:65535", "[::]:255"};
    return v4 ? a[which] : b[which];
}
// the address getaddrinfo gives, with a port
std::string host_text(bool v4, int port) { return v4 ? "10.1.2.99:" + std::to_string(port) : "[2021:2223:2425:2627:2829:2a2b:2c2d:2e63]:" + std::to_string(port); }
template <typename EP>
std::string text(EP const &e)
{
    if constexpr (EP::is_ipv4())
    {
        in_addr a;
        a.s_addr = e.address().network_order();
        char b[40];
        inet_ntop(AF_INET, &a, b, sizeof b);
        return std::string(b) + ":" + std::to_string(e.port());
    }
    else
    {
        in6_addr a;
        e.address().copy(a.s6_addr);
        char b[60];
        inet_ntop(AF_INET6, &a, b, sizeof b);
        return "[" + std::string(b) + "]:" + std::to_string(e.port());
    }
}

template <typename Sock>
constexpr bool TCP = std::is_same_v<Sock, TcpSocket<typename Sock::endpoint_type>>;
template <typename Sock>
constexpr bool UDP = std::is_same_v<Sock, UdpSocket<typename Sock::endpoint_type>>;
template <typename Sock>
constexpr bool LISTEN = std::is_same_v<Sock, ListenSocket<typename Sock::endpoint_type>>;

enum Op
{
    CreateSync, CreateAsync, Close, Destroy, ModeSync, ModeAsync, MoveConstruct, MoveAssign, SelfMove, BindEp, BindReuse, BindHost, Local, // all
    Connect, ConnectHost, Send, SendHost, Receive, Remote, // tcp, udp
    Listen, Accept, DropAccepted,
    NUM_OPS
};
char const *const op_name[] = {"create", "create-async", "close", "destroy", "sync", "async", "move-construct", "move-assign", "self-move", "bind", "bind-reuse", "bind-host", "local", "connect", "connect-host", "send", "send-host", "receive", "remote", "listen", "accept", "drop-accepted"};

template <typename Sock>
std::vector<int> ops()
{
    std::vector<int> v {CreateSync, CreateAsync, Close, Destroy, ModeSync, ModeAsync, MoveConstruct, MoveAssign, SelfMove, BindEp, BindReuse, BindHost};
    if (!LISTEN<Sock>) v.insert(v.end(), {Local, Send, Receive});
    if (TCP<Sock>) v.insert(v.end(), {Connect, ConnectHost, Remote});
    if (UDP<Sock>) v.push_back(SendHost);
    if (LISTEN<Sock>) v.insert(v.end(), {Listen, Accept, DropAccepted});
    return v;
}

template <typename Sock>
struct Rig
{
    using EP = typename Sock::endpoint_type;
    static constexpr bool v4 = EP::is_ipv4();
    mc::Run &r;
    std::shared_ptr<Config> config;
    std::size_t packet;
    vsock::World w;
    std::optional<Sock> s[2];
    Model m[2];
    std::optional<TcpSocket<EP>> accepted;
    Model am;
    std::size_t used[2] {0, 0};     // bytes of ALL used by sends on this descriptor's owner
    std::map<int, std::string> handed;
    std::string trace;
    bool good {true};
    std::vector<EP> eps = endpoints<EP>();
    std::string message = "abc";
    int which {0};                  // end point

    Rig(mc::Run &run, std::size_t p, int first = 100) : r(run), config(std::make_shared<Config>(p)), packet(p)
    {
        w.first = w.next = first;
        vsock::g_world = &w;
        g_seen.clear();
        g_log.clear();
    }
    ~Rig()
    {
        s[0].reset();
        s[1].reset();
        accepted.reset();
        m[0] = m[1] = am = Model();
        if (good) audit("the end");
        vsock::g_world = nullptr;
    }
    void fail(char const *key, std::string const &what)
    {
        if (!good) return;
        good = false;
        std::string const kind = std::string(TCP<Sock> ? "tcp" : UDP<Sock> ? "udp" : "listen");
        r.fail(kind + ":" + key, "%s%s: %s: %s", kind.c_str(), v4 ? "4" : "6", trace.c_str(), what.c_str());
    }
    template <typename A, typename B>
    void same(char const *key, A const &got, B const &want)
    {
        if (!(got == want)) fail(key, std::string(key) + " is " + show(got) + " instead of " + show(want));
    }
    static std::string show(std::string const &x) { return mc::show(x); }
    static std::string show(ConnectedState x) { return x == ConnectedState::Connected ? "connected" : x == ConnectedState::Connecting ? "connecting" : "disconnected"; }
    template <typename T>
    static std::string show(T x) { return std::to_string(static_cast<long long>(x)); }

    void audit(std::string const &)
    {
        if (!w.bad.empty()) fail("descriptor", w.bad.front());
        if (w.addrinfos != 0) fail("addrinfo", std::to_string(w.addrinfos) + " address lists were not released");
        std::set<int> owned, open;
        for (auto &x : m) if (x.fd != -1) owned.insert(x.fd);
        if (am.fd != -1) owned.insert(am.fd);
        for (auto &[fd, f] : w.fds) if (f.open) open.insert(fd);
        for (int fd : open) if (!owned.count(fd)) fail("leak", "the descriptor " + std::to_string(fd) + " is open but no socket owns it");
        for (int fd : owned) if (!open.count(fd)) fail("closed", "the descriptor " + std::to_string(fd) + " was closed though its socket is open");
        for (int i = 0; i < 2; ++i)
        {
            if (!m[i].exists) continue;
            Sock const &k = *s[i];
            if constexpr (!LISTEN<Sock>) same("is_open", k.is_open(), m[i].fd != -1);
            same("handle", k.handle(), m[i].fd);
            if constexpr (TCP<Sock>)
            {
                same("is_connected", k.is_connected(), m[i].conn == ConnectedState::Connected);
                same("is_connecting", k.is_connecting(), m[i].conn == ConnectedState::Connecting);
            }
            if constexpr (LISTEN<Sock>) same("is_listening", k.is_listening(), m[i].listening);
            if (m[i].fd != -1)
            {
                same("io_mode", k.io_mode() == IOMode::Asynchronous, m[i].nonblock);
                same("blocking mode of the descriptor", w.fds[m[i].fd].nonblock, m[i].nonblock);
                same("bytes handed over", w.fds[m[i].fd].sent, handed[m[i].fd]);
            }
        }
        if (accepted)
        {
            same("accepted is_open", accepted->is_open(), am.fd != -1);
            same("accepted is_connected", accepted->is_connected(), am.conn == ConnectedState::Connected);
            same("accepted handle", accepted->handle(), am.fd);
        }
    }

    bool applies(int op, int i) const
    {
        Model const &x = m[i];
        switch (op)
        {
            case CreateSync: case CreateAsync: return !x.exists;
            case MoveConstruct: return x.exists && !m[1 - i].exists;
            case MoveAssign: return x.exists && m[1 - i].exists;
            case Send: case SendHost: return x.exists && !(UDP<Sock> && x.moved);
            case Receive: return x.exists && !x.moved;
            case Accept: return x.exists && !am.exists;
            case DropAccepted: return i == 0 && am.exists;
            default: return x.exists;
        }
    }
    void mode(Model &x, bool async)
    {
        if (ok(Call::GetFlags) && ok(Call::SetFlags)) x.nonblock = async;
        else x.shut();
    }
    // result of a transfer call sequence
    void sent(Model &x, int fd, std::size_t got, std::string const &msg, std::string const &to)
    {
        std::size_t sum = 0;
        int err = 0;
        for (auto &e : g_seen)
        {
            if (e.call != Call::Send && e.call != Call::SendTo) continue;
            if (err != 0) fail("send:after-error", "a send call follows one that failed");
            if (e.call == Call::SendTo && e.n > packet) fail("send:packet", "a datagram of " + std::to_string(e.n) + " bytes, the packet size is " + std::to_string(packet));
            if (e.r.ret > 0) sum += static_cast<std::size_t>(e.r.ret);
            else err = e.r.ret == 0 ? EIO : e.r.err;
        }
        same("send result", got, sum);
        if (fd == -1) return;
        handed[fd] += msg.substr(0, sum);
        if (err == 0 && sum != msg.size()) fail("send:short", "only " + std::to_string(sum) + " bytes were offered though nothing failed");
        for (auto &t : w.fds[fd].to) if (t != to) fail("send:to", "sent to " + t + " instead of " + to);
        w.fds[fd].to.clear();
        if (err != 0 && (sum == 0 || err != EAGAIN)) x.shut();
    }
    void step(int op, int i)
    {
        g_seen.clear();
        g_log.clear();
        std::string const prefix = trace;
        trace += std::string(trace.empty() ? "" : "; ") + op_name[op] + (i ? " B" : " A");
        Model &x = m[i];
        Model &y = m[1 - i];
        int const fd = x.fd;
        EP const ep = eps[static_cast<std::size_t>(which)];
        switch (op)
        {
            case CreateSync:
            case CreateAsync:
            {
                if (op == CreateSync && i == 0) s[i].emplace(config);
                else s[i].emplace(config, op == CreateSync ? IOMode::Synchronous : IOMode::Asynchronous);
                x = Model();
                x.exists = true;
                x.fd = ok(Call::Socket) ? w.next - 1 : -1;
                if (x.fd != -1) mode(x, op == CreateAsync);
                if (ok(Call::Socket))
                {
                    auto &f = w.fds[w.next - 1];
                    if (f.domain != (v4 ? AF_INET : AF_INET6) || f.type != (UDP<Sock> ? SOCK_DGRAM : SOCK_STREAM)) fail("socket:kind", "a socket of another kind was opened");
                }
                break;
            }
            case Close: s[i]->close(); x.shut(); break;
            case Destroy: s[i].reset(); x = Model(); break;
            case ModeSync:
            case ModeAsync:
            {
                bool const got = s[i]->set_io_mode(op == ModeAsync ? IOMode::Asynchronous : IOMode::Synchronous);
                if (fd != -1) mode(x, op == ModeAsync);
                same("set_io_mode", got, x.fd != -1);
                break;
            }
            case MoveConstruct: s[1 - i].emplace(std::move(*s[i])); y = x; x.shut(); x.moved = true; break;
            case MoveAssign: *s[1 - i] = std::move(*s[i]); y = x; x.shut(); x.moved = true; break;
            case SelfMove:
            {
                Sock &alias = *s[i];
                *s[i] = std::move(alias);
                break;
            }
            case BindEp:
            case BindReuse:
            case BindHost:
            {
                if (fd != -1) { w.fds[fd].bound.clear(); w.fds[fd].reuse = false; }
                bool const got = op == BindHost ? s[i]->bind("some.host", 4567, BindMode::SingleUse) : s[i]->bind(ep, op == BindReuse ? BindMode::AllowReuse : BindMode::SingleUse);
                bool const want = fd != -1 && ok(Call::Bind);
                same("bind", got, want);
                if (want)
                {
                    same("bound to", w.fds[fd].bound, op == BindHost ? host_text(v4, 4567) : want_text(v4, which));
                    same("bound with reuse", w.fds[fd].reuse, op == BindReuse);
                }
                if (op == BindReuse && last(Call::SetOption) != nullptr && !ok(Call::SetOption) && last(Call::Bind) != nullptr) fail("bind:reuse", "bound though the reuse flag could not be set");
                break;
            }
            case Local:
                if constexpr (!LISTEN<Sock>)
                {
                    auto const got = s[i]->local_endpoint();
                    same("local_endpoint", got.has_value(), fd != -1 && ok(Call::SockName));
                    if (got) same("local_endpoint", text(*got), w.from);
                }
                break;
            case Remote:
                if constexpr (TCP<Sock>)
                {
                    auto const got = s[i]->remote_endpoint();
                    same("remote_endpoint", got.has_value(), fd != -1 && ok(Call::PeerName));
                    if (got) same("remote_endpoint", text(*got), w.from);
                }
                break;
            case Connect:
            case ConnectHost:
                if constexpr (TCP<Sock>)
                {
                    if (fd != -1) w.fds[fd].peer.clear();
                    auto const got = op == ConnectHost ? s[i]->connect("some.host", 4567) : s[i]->connect(ep);
                    auto *c = last(Call::Connect);
                    auto want = ConnectedState::Disconnected;
                    if (fd != -1 && c != nullptr) want = c->r.ret >= 0 ? ConnectedState::Connected : c->r.err == ECONNREFUSED ? ConnectedState::Disconnected : ConnectedState::Connecting;
                    same("connect", got, want);
                    if (op == ConnectHost && !ok(Call::Resolve))
                    {
                        if (c != nullptr) fail("connect:unresolved", "connected though the name was not resolved");
                        break; // nothing happened
                    }
                    if (fd != -1 && c == nullptr) fail("connect:none", "no connection was attempted");
                    if (fd != -1) same("connected to", w.fds[fd].peer, op == ConnectHost ? host_text(v4, 4567) : want_text(v4, which));
                    x.conn = want;
                    if (want == ConnectedState::Disconnected) x.shut();
                }
                break;
            case Send:
            case SendHost:
                if constexpr (TCP<Sock>)
                {
                    std::size_t const got = s[i]->send(message);
                    sent(x, fd, got, message, "");
                }
                else if constexpr (UDP<Sock>)
                {
                    std::size_t const got = op == SendHost ? s[i]->send("some.host", 4567, message) : s[i]->send(ep, message);
                    if (op == SendHost && !ok(Call::Resolve)) { same("send result", got, 0u); break; }
                    sent(x, fd, got, message, op == SendHost ? host_text(v4, 4567) : want_text(v4, which));
                }
                break;
            case Receive:
                if constexpr (!LISTEN<Sock>)
                {
                    w.received.clear();
                    std::string const got = s[i]->receive();
                    same("received", got, w.received);
                    auto *c = last(UDP<Sock> ? Call::RecvFrom : Call::Recv);
                    if (fd == -1) break;
                    if (c == nullptr) { fail("receive:none", "nothing was received"); break; }
                    if (c->n != packet) fail("receive:size", "room for " + std::to_string(c->n) + " bytes, the packet size is " + std::to_string(packet));
                    if (c->r.ret < 0 || (c->r.ret == 0 && TCP<Sock>)) x.shut();
                }
                break;
            case Listen:
                if constexpr (LISTEN<Sock>)
                {
                    bool const got = s[i]->listen();
                    x.listening = fd != -1 && ok(Call::Listen);
                    same("listen", got, x.listening);
                }
                break;
            case Accept:
                if constexpr (LISTEN<Sock>)
                {
                    auto got = s[i]->accept();
                    bool const want = fd != -1 && ok(Call::Accept);
                    if (!want) x.shut();
                    same("accept", got.has_value(), want);
                    am = Model();
                    if (got)
                    {
                        am.exists = true;
                        am.fd = w.next - 1;
                        am.conn = ConnectedState::Connected;
                        mode(am, x.nonblock);
                        accepted.emplace(std::move(*got));
                        if (am.fd != -1) same("mode of the accepted socket", w.fds[am.fd].nonblock, x.nonblock);
                    }
                }
                break;
            case DropAccepted: accepted.reset(); am = Model(); break;
        }
        trace += g_log;
        audit("");
        r.transitions();
    }
    std::uint64_t hash() const
    {
        std::uint64_t h = TCP<Sock> ? 1 : UDP<Sock> ? 2 : 3;
        int base = -1;
        for (auto const *x : {&m[0], &m[1], &am})
        {
            if (x->fd != -1 && base == -1) base = x->fd;
            h = mc::hash_mix(h, x->exists + 2u * x->moved + 4u * x->nonblock + 8u * x->listening + 16u * static_cast<unsigned>(x->conn) + 64u * (x->fd != -1) + 128u * static_cast<unsigned>(x->fd != -1 ? x->fd - base + 8 : 0));
        }
        return mc::hash_mix(h, v4);
    }
};

// ---- A: every outcome of the transfer calls
template <typename Sock>
void transfers(mc::Run &r)
{
    int const max = r.thorough() ? 6 : 5;
    for (int len = 0; len <= max; ++len)
        for (std::size_t packet = 1; packet <= (TCP<Sock> ? 1u : 4u); ++packet)
            for (int async = 0; async < 2; ++async)
                for (int which = 0; which < (UDP<Sock> ? 4 : 1); ++which)
                {
                    if (!r.take()) continue;
                    g_fine = true;
                    Chooser c;
                    g_choose = &c;
                    std::uint64_t n = 0;
                    do
                    {
                        Rig<Sock> g(r, packet);
                        g.which = which;
                        g.step(async ? CreateAsync : CreateSync, 0);
                        if (g.m[0].fd != -1)
                        {
                            g.message = ALL.substr(0, static_cast<std::size_t>(len));
                            g.step(Send, 0);
                            g.message = "xy";
                            g.step(Send, 0);
                        }
                        ++n;
                        if (c.pos > 4) r.nontrivial();
                        r.state(g.hash());
                        if (r.verbose() && !g.good) std::printf("%s\n", g.trace.c_str());
                    } while (c.next());
                    r.evaluations(n - 1);
                }
}
template <typename Sock>
void receives(mc::Run &r)
{
    for (std::size_t packet = 1; packet <= (r.thorough() ? 5u : 4u); ++packet)
        for (int async = 0; async < 2; ++async)
            for (int first = 0; first < 2; ++first)
            {
                if (!r.take()) continue;
                g_fine = true;
                Chooser c;
                g_choose = &c;
                std::uint64_t n = 0;
                do
                {
                    Rig<Sock> g(r, packet);
                    g.step(async ? CreateAsync : CreateSync, 0);
                    if (g.m[0].fd != -1)
                    {
                        if (first == 1) { g.message = "q"; g.step(Send, 0); }
                        for (int k = 0; k < 3; ++k) g.step(Receive, 0);
                        g.message = "z";
                        g.step(Send, 0);
                    }
                    ++n;
                    if (c.pos > 4) r.nontrivial();
                    r.state(g.hash());
                } while (c.next());
                r.evaluations(n - 1);
            }
}
template <typename Sock>
void addresses(mc::Run &r)
{
    using EP = typename Sock::endpoint_type;
    for (int which = 0; which < static_cast<int>(endpoints<EP>().size()); ++which)
        for (int op : ops<Sock>())
        {
            if (op < BindEp) continue;
            if (!r.take()) continue;
            g_fine = true;
            Chooser c;
            g_choose = &c;
            do
            {
                Rig<Sock> g(r, 3);
                g.which = which;
                g.step(CreateSync, 0);
                if (g.applies(op, 0)) { g.step(op, 0); r.nontrivial(); }
                if (g.applies(Close, 0)) g.step(Close, 0);
                if (g.applies(op, 0)) g.step(op, 0);
                r.evaluations(1);
            } while (c.next());
        }
}

// ---- long messages and large packets
template <typename Sock>
void longs(mc::Run &r)
{
    for (std::size_t size : gen::sizes(r.thorough() ? 40 : 0, r.thorough() ? 140000 : 70000))
        for (int async = 0; async < 2; ++async)
        {
            if (size < 6 || !r.take()) continue;
            g_fine = false;
            g_halves = true;
            Chooser c;
            g_choose = &c;
            do
            {
                Rig<Sock> g(r, std::max<std::size_t>(size / 2, 2));
                g.step(async ? CreateAsync : CreateSync, 0);
                if (g.m[0].fd == -1) continue;
                g.message.clear();
                for (std::size_t k = 0; k < size; ++k) g.message += static_cast<char>(k * 131 + k / 251);
                g.step(Send, 0);
                if (g.m[0].fd != -1) g.step(Receive, 0);
                r.nontrivial();
                r.state(g.hash());
                r.evaluations(1);
            } while (c.next());
            g_halves = false;
        }
}

// ---- B: sequences of operations
template <typename Sock>
void histories(mc::Run &r, int depth)
{
    auto const kinds = ops<Sock>();
    int const n = static_cast<int>(kinds.size()) * 2;
    for (int a = 0; a < 2; ++a)
        for (int o1 = 0; o1 < n; ++o1)
            for (int o2 = 0; o2 < n; ++o2)
            {
                if (!r.take()) continue;
                g_fine = false;
                Chooser c;
                g_choose = &c;
                std::uint64_t runs = 0;
                do
                {
                    Rig<Sock> g(r, 2);
                    g.step(a ? CreateAsync : CreateSync, 0);
                    bool dead = false;
                    for (int d = 1; d < depth && !dead && g.good; ++d)
                    {
                        // all applicable operations are alternatives
                        std::vector<int> can;
                        for (int k = 0; k < n; ++k) if (g.applies(kinds[static_cast<std::size_t>(k / 2)], k % 2)) can.push_back(k);
                        int k;
                        if (d == 1) k = o1;
                        else if (d == 2) k = o2;
                        else k = can[static_cast<std::size_t>(c.choose(static_cast<int>(can.size())))];
                        if (!g.applies(kinds[static_cast<std::size_t>(k / 2)], k % 2)) { dead = true; break; }
                        g.step(kinds[static_cast<std::size_t>(k / 2)], k % 2);
                    }
                    ++runs;
                    if (!dead) r.nontrivial();
                    r.state(g.hash());
                    if (r.want_sample(97) && runs == 5) r.sample("%s", g.trace.c_str());
                } while (c.next());
                r.evaluations(runs - 1);
            }
}

template <typename EP>
void all(mc::Run &r)
{
    int const depth = r.thorough() ? 5 : 4;
    r.section("transfers");
    transfers<TcpSocket<EP>>(r);
    transfers<UdpSocket<EP>>(r);
    r.section("receives");
    receives<TcpSocket<EP>>(r);
    receives<UdpSocket<EP>>(r);
    r.section("long messages");
    longs<TcpSocket<EP>>(r);
    longs<UdpSocket<EP>>(r);
    r.section("addresses");
    addresses<TcpSocket<EP>>(r);
    addresses<UdpSocket<EP>>(r);
    addresses<ListenSocket<EP>>(r);
    r.section("histories");
    histories<TcpSocket<EP>>(r, depth);
    histories<UdpSocket<EP>>(r, depth);
    histories<ListenSocket<EP>>(r, depth);
}

} // namespace

void enumerate(mc::Run &r)
{
    static auto logger = fly::logger::Logger::create("none", std::make_shared<fly::logger::LoggerConfig>(), std::make_unique<NullSink>());
    fly::logger::Logger::set_default_logger(logger);
    all<Endpoint<IPv4Address>>(r);
    all<Endpoint<IPv6Address>>(r);
}
