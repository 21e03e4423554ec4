// C31: a signal reaches the old or the new handler at every moment of set_signal_handler().  The call is executed
// one machine instruction at a time (trap flag); at every boundary each of the signals is delivered to whatever is
// installed by then, on this thread, or on another one which is held inside of the handler until the call is over.
#include "fly/system/system.hpp"
#include "mc_enum.hpp"

#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#include <atomic>
#include <csignal>
#include <ctime>
#include <cstdarg>
#include <cstring>
#include <exception>
#include <thread>

namespace {

constexpr int kSignals[] = {SIGINT, SIGTERM, SIGILL, SIGFPE, SIGABRT, SIGSEGV, SIGSYS, SIGBUS};
constexpr char const *kNames[] = {"SIGINT", "SIGTERM", "SIGILL", "SIGFPE", "SIGABRT", "SIGSEGV", "SIGSYS", "SIGBUS"};
constexpr int kHandlers = 5;   // 0: none, the default action
constexpr char const *kHandlerNames[] = {"none", "small", "two words", "large", "function"};

// what the child tells
struct Shared
{
    volatile int failed;
    volatile int step, signal;
    volatile int stage;   // 1: inside of a handler called by the explorer
    volatile long boundaries, delivered, deferred, by_default;
    char text[400];
};
Shared *g;

void fail(char const *fmt, ...)
{
    if (g->failed) return;
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(g->text, sizeof g->text, fmt, ap);
    va_end(ap);
    g->failed = 1;
}

// ---------------------------------------------------------------------------------------- the handlers
volatile int g_calls, g_last_id, g_last_signal, g_dead;
std::atomic<int> g_hold {0};   // 1: the next call stays, 2: it is inside, 3: it may go
thread_local bool t_other = false;

constexpr std::uint64_t kAlive = 0x5ca1ab1e0ddba11ull;
template <int Id>
struct Life
{
    std::uint64_t volatile magic {kAlive + Id};
    Life() = default;
    Life(Life const &) { }
    ~Life() { magic = 0xdead; }
    Life &operator=(Life const &) = delete;
};
// a handler may only look at what it was made of
template <int Id, typename F>
void called(int signal, F const &alive)
{
    if (!alive()) { g_dead = g_dead + 1; return; }
    if (t_other && g_hold == 1)
    {
        g_hold = 2;
        g_hold.wait(2);
        if (!alive()) g_dead = g_dead + 1;
    }
    g_calls = g_calls + 1;
    g_last_id = Id;
    g_last_signal = signal;
}
struct Small
{
    std::uint64_t magic {kAlive};
    void operator()(int s) const { called<1>(s, [this] { return *const_cast<std::uint64_t const volatile *>(&magic) == kAlive; }); }
};
struct TwoWords
{
    std::uint64_t a {kAlive + 7}, b {~(kAlive + 7)};
    void operator()(int s) const
    {
        called<2>(s, [this] {
            auto const *p = const_cast<std::uint64_t const volatile *>(&a);
            return p[0] == kAlive + 7 && p[1] == ~(kAlive + 7);
        });
    }
};
struct Large
{
    Life<3> life;
    std::uint64_t more[12] {};
    void operator()(int s) const { called<3>(s, [this] { return life.magic == kAlive + 3; }); }
};
void function(int s) { called<4>(s, [] { return true; }); }

fly::system::SignalHandler make(int id)
{
    switch (id)
    {
        case 1: return Small();
        case 2: return TwoWords();
        case 3: return Large();
        case 4: return &function;
        default: return nullptr;
    }
}

// ---------------------------------------------------------------------------------------- the explorer
int g_old, g_new;
bool g_threads;
int g_target;          // at this boundary the other thread enters the handler
bool g_used;           // it was used
int g_other_signal;
void (*g_other_handler)(int);
std::atomic<int> g_go {0};   // for the other thread: 1 call, 2 done, -1 end
bool g_stop;

struct KernelAction { void (*handler)(int); unsigned long flags; void (*restorer)(); unsigned long mask; };
KernelAction disposition(int signal)
{
    KernelAction a {};
    syscall(SYS_rt_sigaction, signal, nullptr, &a, 8);
    return a;
}
void crash(int) { _exit(77); }

void set_crash(bool on, KernelAction &saved)
{
    if (on)
    {
        struct sigaction a {};
        sigaction(SIGSEGV, nullptr, &a);
        syscall(SYS_rt_sigaction, SIGSEGV, nullptr, &saved, 8);
        a.sa_handler = crash;
        a.sa_flags = SA_NODEFER;
        sigaction(SIGSEGV, &a, nullptr);
    }
    else syscall(SYS_rt_sigaction, SIGSEGV, &saved, nullptr, 8);
}

// one signal, now
void deliver(int which, sigset_t const *mask)
{
    int const signal = kSignals[which];
    g->signal = which;
    if (mask != nullptr && sigismember(mask, signal) == 1) { g->deferred = g->deferred + 1; return; }
    KernelAction const a = disposition(signal);
    if (a.handler == SIG_DFL)
    {
        g->by_default = g->by_default + 1;
        if (g_old != 0 && g_new != 0) fail("%s would take its default action while one handler (%s) replaces another one (%s)", kNames[which], kHandlerNames[g_old], kHandlerNames[g_new]);
        return;
    }
    if (a.handler == SIG_IGN) { fail("%s is ignored", kNames[which]); return; }
    g_calls = g_dead = 0;
    KernelAction saved;
    set_crash(true, saved);
    g->stage = 1;
    try
    {
        a.handler(signal);
    }
    catch (...)
    {
        fail("%s: an exception escapes from the handler of the library (the program would be terminated), %s is replaced by %s", kNames[which], kHandlerNames[g_old], kHandlerNames[g_new]);
    }
    g->stage = 0;
    set_crash(false, saved);
    g->delivered = g->delivered + 1;
    if (g->failed) return;
    if (g_dead != 0) fail("%s is handed to a handler whose state is gone (%s is replaced by %s)", kNames[which], kHandlerNames[g_old], kHandlerNames[g_new]);
    else if (g_calls != 1) fail("%s: %d handlers are called, %s is replaced by %s", kNames[which], static_cast<int>(g_calls), kHandlerNames[g_old], kHandlerNames[g_new]);
    else if (g_last_signal != signal) fail("%s is reported as signal %d", kNames[which], static_cast<int>(g_last_signal));
    else if (g_last_id != g_old && g_last_id != g_new) fail("%s is handed to the handler %s while %s is replaced by %s", kNames[which], kHandlerNames[g_last_id], kHandlerNames[g_old], kHandlerNames[g_new]);
}

void on_trap(int, siginfo_t *, void *context)
{
    auto *const u = static_cast<ucontext_t *>(context);
    if (g_stop)
    {
        u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
        return;
    }
    g->step = g->step + 1;
    g->boundaries = g->boundaries + 1;
    int const saved = errno;
    if (!g_threads)
    {
        for (int i = 0; i < 8 && !g->failed; ++i) deliver(i, &u->uc_sigmask);
    }
    else if (g->step == g_target)
    {
        KernelAction const a = disposition(SIGTERM);
        if (a.handler != SIG_DFL && a.handler != SIG_IGN)
        {
            g_used = true;
            g_other_handler = a.handler;
            g_hold = 1;
            g_go = 1;
            g_go.notify_all();
            // the other thread may well have to wait for this one
            timespec from {}, now {};
            clock_gettime(CLOCK_MONOTONIC, &from);
            while (g_hold == 1 && g_go == 1)
            {
                sched_yield();
                clock_gettime(CLOCK_MONOTONIC, &now);
                if (now.tv_sec - from.tv_sec > 1) break;
            }
            u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;   // there is nothing more to do at a boundary
        }
        else u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    }
    errno = saved;
}

void step_by_step(fly::system::SignalHandler handler)
{
    struct sigaction a {};
    a.sa_sigaction = on_trap;
    a.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &a, nullptr);
    g->step = 0;
    g_stop = false;
    __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
    fly::system::set_signal_handler(std::move(handler));
    __asm__ volatile("" ::: "memory");
    g_stop = true;
    __asm__ volatile("nop; nop" ::: "memory");
}

void settled(int id)
{
    int const old = g_old;
    g_old = id;
    for (int i = 0; i < 8 && !g->failed; ++i)
    {
        auto const a = disposition(kSignals[i]);
        if (id == 0)
        {
            if (a.handler != SIG_DFL) fail("the default action of %s is not restored", kNames[i]);
            continue;
        }
        deliver(i, nullptr);
        if (g->failed) break;
        // and for real
        g_calls = 0;
        std::raise(kSignals[i]);
        if (g_calls != 1 || g_last_id != id || g_last_signal != kSignals[i]) fail("after the call %s does not reach the handler %s", kNames[i], kHandlerNames[id]);
    }
    g_old = old;
}

// in the child
void scenario(std::vector<int> const &ids, bool threads)
{
    g_threads = threads;
    int current = 0;
    for (std::size_t i = 0; i + 1 < ids.size(); ++i)
    {
        fly::system::set_signal_handler(make(ids[i]));
        current = ids[i];
    }
    g_old = current;
    g_new = ids.back();
    if (!threads)
    {
        sigset_t before, after;
        sigprocmask(SIG_BLOCK, nullptr, &before);
        step_by_step(make(g_new));
        sigprocmask(SIG_BLOCK, nullptr, &after);
        for (int s : kSignals) if (sigismember(&before, s) != sigismember(&after, s)) fail("a signal remains blocked");
        if (!g->failed) settled(g_new);
        return;
    }
    std::thread other([] {
        t_other = true;
        for (;;)
        {
            for (int now = g_go; now != 1 && now != -1; now = g_go) g_go.wait(now);
            if (g_go == -1) return;
            try { g_other_handler(SIGTERM); }
            catch (...) { fail("an exception escapes from the handler of the library on another thread"); }
            g_go = 2;
        }
    });
    KernelAction saved;
    for (g_target = 1; !g->failed; ++g_target)
    {
        fly::system::set_signal_handler(make(g_old));
        g_calls = g_dead = 0;
        g_used = false;
        g_hold = 0;
        g_go = 0;
        step_by_step(make(g_new));
        bool const last = g->step < g_target;
        if (g_used)
        {
            g->signal = 1;
            set_crash(true, saved);
            g->stage = 1;
            if (g_hold == 1) g_hold = 0; else g_hold = 3;
            g_hold.notify_all();
            while (g_go == 1) std::this_thread::yield();
            g->stage = 0;
            set_crash(false, saved);
            g->delivered = g->delivered + 1;
            if (g_dead != 0) fail("the handler %s runs on another thread, and its state is gone while it is replaced by %s", kHandlerNames[g_old], kHandlerNames[g_new]);
            else if (g_calls != 1) fail("%d handlers are called on the other thread", static_cast<int>(g_calls));
            else if (g_last_id != g_old && g_last_id != g_new) fail("the wrong handler is called on the other thread");
        }
        if (last) break;
    }
    g_go = -1;
    g_go.notify_all();
    other.join();
}

void one(mc::Run &r, std::vector<int> const &ids, bool threads)
{
    std::memset(g, 0, sizeof *g);
    std::string history;
    for (int id : ids) history += std::string(history.empty() ? "" : ", ") + kHandlerNames[id];
    pid_t const child = fork();
    if (child == 0)
    {
        for (int s : kSignals) std::signal(s, SIG_DFL);
        scenario(ids, threads);
        _exit(0);
    }
    int status = 0;
    timespec from {}, now {};
    clock_gettime(CLOCK_MONOTONIC, &from);
    bool hang = false;
    long seen = 0;   // told to the driver while the child is under way
    while (waitpid(child, &status, WNOHANG) == 0)
    {
        clock_gettime(CLOCK_MONOTONIC, &now);
        if (now.tv_sec - from.tv_sec > 240) { hang = true; kill(child, SIGKILL); waitpid(child, &status, 0); break; }
        if (long const b = g->boundaries; b > seen) { r.transitions(static_cast<std::uint64_t>(b - seen)); seen = b; }
        usleep(200);
    }
    char const *const key = threads ? "C31/handler in use" : "C31/signal while replacing";
    if (g->failed) r.fail(key, "%s, at instruction %d of the last of: %s", const_cast<char *>(g->text), static_cast<int>(g->step), history.c_str());
    else if (hang) r.fail(key, "the program hangs at instruction %d, signal %s, of the last of: %s", static_cast<int>(g->step), kNames[g->signal & 7], history.c_str());
    else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
        r.fail(key, "the program crashes (%s) at instruction %d, signal %s, of the last of: %s", g->stage ? "inside of the handler" : "outside of the handler", static_cast<int>(g->step), kNames[g->signal & 7], history.c_str());
    if (!g->failed && WIFEXITED(status) && g->boundaries < 20) r.fail("C31/explorer", "only %ld instruction boundaries were seen", static_cast<long>(g->boundaries));
    r.evaluations(static_cast<std::uint64_t>(g->delivered));
    r.transitions(static_cast<std::uint64_t>(g->boundaries - seen));
    r.nontrivial(static_cast<std::uint64_t>(g->delivered));
    for (long i = 0; i < g->boundaries && !threads; ++i) r.state(mc::hash_mix(mc::hash_mix(static_cast<std::uint64_t>(ids.size() > 1 ? ids[ids.size() - 2] : 0), static_cast<std::uint64_t>(ids.back())), static_cast<std::uint64_t>(i)));
    if (r.verbose()) std::printf("%s%s: %ld boundaries, %ld deliveries, %ld by default, %ld deferred\n", history.c_str(), threads ? " (other thread)" : "", g->boundaries, g->delivered, g->by_default, g->deferred);
    if (r.want_sample(37)) r.sample("%s%s: %ld instruction boundaries, %ld handlers called, %ld default actions", history.c_str(), threads ? " (other thread)" : "", static_cast<long>(g->boundaries), static_cast<long>(g->delivered), static_cast<long>(g->by_default));
}

} // namespace

void enumerate(mc::Run &r)
{
    g = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    r.section("signals on this thread");
    for (int length = 1; length <= (r.thorough() ? 4 : 3); ++length)
    {
        int total = 1;
        for (int i = 0; i < length; ++i) total *= kHandlers;
        for (int v = 0; v < total; ++v)
        {
            if (!r.take()) continue;
            std::vector<int> ids;
            for (int i = 0, x = v; i < length; ++i, x /= kHandlers) ids.push_back(x % kHandlers);
            one(r, ids, false);
        }
    }
    r.section("a handler in use by another thread");
    for (int before = 0; before < (r.thorough() ? kHandlers : 1); ++before)
        for (int old = 1; old < kHandlers; ++old)
            for (int next = 0; next < kHandlers; ++next)
            {
                if (!r.take()) continue;
                std::vector<int> ids;
                if (before) ids.push_back(before);
                ids.push_back(old);
                ids.push_back(next);
                one(r, ids, true);
            }
}
