// See mcsched.hpp.  This file is compiled without -fsanitize=thread.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mcsched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <future>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t; using i64 = std::int64_t;

namespace {

constexpr int MAXT = 48;
constexpr int MAXALT = 14;
constexpr int MAXPOINT = 12000;
constexpr int MAXSHARED = 6000;
constexpr int MAXDEC = 64;
constexpr u64 HEAP_BASE = 0x200000000000ull, HEAP_PER = 64ull << 20;
constexpr u64 STACK_BASE = 0x210000000000ull, STACK_PER = 1ull << 20;
constexpr u64 BITS_BASE = 0x220000000000ull;

inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}

struct Decision { u32 op; u32 alt; };
struct Point { u64 hash; u32 op; u8 n, free; u16 alt[MAXALT]; };
enum Status { ST_NONE, ST_OK, ST_FAIL, ST_CRASH, ST_INFRA };

struct Slot
{
    int program, policy;
    bool verbose;
    int ndec;
    Decision dec[MAXDEC];
    // results
    int status;
    char key[200], msg[1500];
    int npoint, nshared;
    u64 nops, nswitch, final_hash, nfailpts;
    u64 shared[MAXSHARED];
    Point point[MAXPOINT];
};

constexpr u32 SHN = 1 << 15;
struct Common { volatile u64 shared[SHN]; bool thorough; };

Common *g_common;
Slot *g_slot;
bool g_active;               // an execution is being controlled
bool g_verbose;
volatile int g_in_engine;    // evaluate predicates without monitoring

// ------------------------------------------------------------------------------------------ threads
enum Kind { B_READY, B_MUTEX, B_RDLOCK, B_WRLOCK, B_COND, B_JOIN, B_FUTEX, B_SLEEP, B_PRED, B_ONCE, B_DONE };
char const *const kKind[] = {"ready", "waiting for mutex", "waiting for shared lock", "waiting for exclusive lock", "waiting on condition", "joining", "waiting on future", "sleeping", "waiting", "waiting for one-time init", "finished"};

struct Obj;
struct Thread
{
    int id;
    int kind;
    pthread_t pt;
    volatile int go;
    u32 vc[MAXT];
    u64 hash;
    Obj *obj, *obj2;
    void *cond;
    bool signaled, spurious, timed_out;
    u64 seq;
    i64 deadline;
    int target;
    unsigned *fut; unsigned futval;
    std::function<bool()> *pred;
    char const *what;
    void *(*fn)(void *);
    void *arg, *ret;
    bool detached;
    u64 heap;
    int ignore;
    u32 allocs;
    int depth;
    void *stack[512];
};

struct Obj
{
    u64 addr;
    u64 w, rsum;
    int first;
    bool multi;
    int owner, depth, readers;
    int once;
    u32 vc[MAXT], rvc[MAXT];
};

Thread *g_threads;
int g_nthreads, g_cur;
i64 g_now;
i64 g_wall_jump;   // how far the harness moved the wall clock
u32 g_op;
int g_idle, g_max_idle, g_policy;
u64 g_seq;
bool g_spurious, g_leak_ok;
int g_decpos;
__thread Thread *me;

constexpr u32 OBJN = 1 << 15;
Obj *g_objs;

bool in_heap(u64 a) { return a >= HEAP_BASE && a < HEAP_BASE + HEAP_PER * MAXT; }

Obj *obj(void const *p)
{
    u64 const a = reinterpret_cast<u64>(p);
    u32 i = static_cast<u32>(mix(0x1234, a)) & (OBJN - 1);
    while (g_objs[i].addr && g_objs[i].addr != a) i = (i + 1) & (OBJN - 1);
    Obj &o = g_objs[i];
    if (!o.addr) { o.addr = a; o.first = -1; o.owner = -1; }
    return &o;
}
// stable name of an address (library data is at a random base)
struct Mod { u64 lo, hi; u64 name; };
Mod g_mods[64];
int g_nmods;
u64 name(u64 a)
{
    for (int i = 0; i < g_nmods; ++i) if (a >= g_mods[i].lo && a < g_mods[i].hi) return (g_mods[i].name << 40) | (a - g_mods[i].lo);
    return a;
}
bool shared_known(u64 n)
{
    u32 i = static_cast<u32>(mix(7, n)) & (SHN - 1);
    while (g_common->shared[i]) { if (g_common->shared[i] == n) return true; i = (i + 1) & (SHN - 1); }
    return false;
}
bool shared_add(u64 n)
{
    u32 i = static_cast<u32>(mix(7, n)) & (SHN - 1);
    while (g_common->shared[i]) { if (g_common->shared[i] == n) return false; i = (i + 1) & (SHN - 1); }
    g_common->shared[i] = n;
    return true;
}
void touch(Obj *o)
{
    if (o->first < 0) o->first = me->id;
    else if (o->first != me->id && !o->multi)
    {
        o->multi = true;
        if (g_slot->nshared < MAXSHARED) g_slot->shared[g_slot->nshared++] = name(o->addr);
    }
}

long futex(volatile int *a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }

// ------------------------------------------------------------------------------------------ output
std::string sym(void const *pc)
{
    Dl_info di;
    std::string r;
    if (dladdr(pc, &di) && di.dli_sname)
    {
        int st = 0;
        char *d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        r = d && st == 0 ? d : di.dli_sname;
        std::free(d);
        // shorten template noise
        auto p = r.find('(');
        std::string head = r.substr(0, p == std::string::npos ? r.size() : p);
        std::string flat;
        int depth = 0;
        for (char c : head) { if (c == '<') ++depth; if (!depth) flat += c; if (c == '>') --depth; }
        if (depth == 0) head = flat;
        if (head.size() > 110) head = head.substr(0, 50) + "..." + head.substr(head.size() - 55);
        r = head;
    }
    else { char b[32]; std::snprintf(b, sizeof b, "%p", pc); r = b; }
    return r;
}
std::string where(Thread *t)
{
    std::string r;
    int n = 0;
    for (int i = std::min(t->depth, 512) - 1; i >= 0 && n < 3; --i)
    {
        auto s = sym(t->stack[i]);
        if (s.find("std::") == 0 && i > 0) continue;
        if (n) r += " < ";
        r += s;
        ++n;
    }
    return r;
}

[[noreturn]] void end_execution(int status)
{
    g_slot->status = status;
    g_slot->nops = g_op;
    u64 h = 0;
    for (int i = 0; i < g_nthreads; ++i) h += mix(static_cast<u64>(i) + 77, g_threads[i].hash);
    g_slot->final_hash = h;
    std::fflush(stdout);
    _exit(0);
}

[[noreturn]] void vfail(char const *key, char const *fmt, va_list ap)
{
    g_active = false;
    std::snprintf(g_slot->key, sizeof g_slot->key, "%s", key);
    std::vsnprintf(g_slot->msg, sizeof g_slot->msg, fmt, ap);
    for (char *p = g_slot->key; *p; ++p) if (*p == ' ') *p = '_';
    end_execution(ST_FAIL);
}
[[noreturn]] void engine_fail(char const *key, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void engine_fail(char const *key, char const *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vfail(key, fmt, ap);
}
[[noreturn]] void infra(char const *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    g_active = false;
    std::snprintf(g_slot->key, sizeof g_slot->key, "infra");
    std::vsnprintf(g_slot->msg, sizeof g_slot->msg, fmt, ap);
    end_execution(ST_INFRA);
}
void trace(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
void trace(char const *fmt, ...)
{
    if (!g_verbose) return;
    bool const a = g_active; g_active = false;
    va_list ap; va_start(ap, fmt);
    std::printf("%6u t%d %8.1fms ", g_op, me ? me->id : -1, static_cast<double>(g_now) / 1e6);
    std::vprintf(fmt, ap);
    if (me) std::printf("   [%s]", where(me).c_str());
    std::printf("\n");
    g_active = a;
}

// ------------------------------------------------------------------------------------------ scheduling
void join_vc(u32 *a, u32 const *b) { for (int i = 0; i < g_nthreads; ++i) if (b[i] > a[i]) a[i] = b[i]; }
void release_to(u32 *v) { join_vc(v, me->vc); me->vc[me->id]++; }

void ev(Obj *o, u64 kind, bool write)
{
    touch(o);
    me->hash = mix(mix(mix(me->hash, kind), name(o->addr)), write ? mix(o->w, o->rsum) : o->w);
    if (write) { o->w = me->hash; o->rsum = 0; }
    else o->rsum += mix(me->hash, 99);
}

bool lock_free(Thread &t, Obj *o, int kind)
{
    if (kind == B_RDLOCK) return o->owner < 0;
    if (kind == B_WRLOCK) return o->owner < 0 && o->readers == 0;
    (void)t;
    return o->owner < 0;
}
bool enabled(Thread &t)
{
    switch (t.kind)
    {
        case B_READY: return true;
        case B_MUTEX: case B_RDLOCK: case B_WRLOCK: return lock_free(t, t.obj, t.kind);
        case B_COND: return (t.signaled || t.spurious || t.timed_out) && lock_free(t, t.obj2, B_MUTEX);
        case B_JOIN: return g_threads[t.target].kind == B_DONE;
        case B_FUTEX: return *t.fut != t.futval || t.timed_out;
        case B_SLEEP: return t.timed_out;
        case B_PRED:
        {
            if (t.timed_out) return true;
            ++g_in_engine;
            bool const r = (*t.pred)();
            --g_in_engine;
            return r;
        }
        case B_ONCE: return t.obj->once != 1;
        default: return false;
    }
}
void set_time(i64 to)
{
    g_now = to;
    for (int i = 0; i < g_nthreads; ++i)
    {
        Thread &t = g_threads[i];
        if (t.deadline >= 0 && t.deadline <= g_now && t.kind != B_DONE && t.kind != B_READY && !t.signaled) t.timed_out = true;
    }
}
bool timed(Thread &t) { return t.kind != B_DONE && t.kind != B_READY && t.deadline >= 0 && !t.timed_out && !t.signaled; }

u64 state_hash()
{
    u64 h = mix(0x5151, static_cast<u64>(g_now));
    for (int i = 0; i < g_nthreads; ++i) h += mix(static_cast<u64>(i) + 77, g_threads[i].hash);
    return h;
}

std::string describe()
{
    std::string r;
    for (int i = 0; i < g_nthreads; ++i)
    {
        Thread &t = g_threads[i];
        if (t.kind == B_DONE) continue;
        if (!r.empty()) r += "; ";
        r += "t" + std::to_string(i) + " " + (t.kind == B_PRED && t.what ? t.what : kKind[t.kind]);
        if (t.kind == B_MUTEX && t.obj->owner >= 0) r += " held by t" + std::to_string(t.obj->owner);
        r += " in " + where(&t);
    }
    return r;
}

// alt codes: kind << 8 | thread;  kind 0 run, 1 let time pass to its deadline and run, 2 spurious wake-up and run
void go_to(u32 alt)
{
    Thread &t = g_threads[alt & 0xff];
    u32 const k = alt >> 8;
    if (k == 1) set_time(t.deadline);
    if (k == 2) t.spurious = true;
    if (g_cur == t.id && me && me->id == t.id) return;
    g_slot->nswitch++;
    Thread *self = me;
    g_cur = t.id;
    if (self) self->go = 0;
    __atomic_store_n(&t.go, 1, __ATOMIC_SEQ_CST);
    futex(&t.go, FUTEX_WAKE_PRIVATE, 1);
    if (!self || self->kind == B_DONE) return;
    while (!__atomic_load_n(&self->go, __ATOMIC_SEQ_CST)) futex(&self->go, FUTEX_WAIT_PRIVATE, 0);
}

bool decided(u32 op, u32 &v)
{
    if (g_decpos < g_slot->ndec && g_slot->dec[g_decpos].op == op) { v = g_slot->dec[g_decpos++].alt; return true; }
    return false;
}
bool recording() { return g_decpos >= g_slot->ndec; }

// Decide who continues.  self_ok: the calling thread could continue.  offer: record the alternatives.
void schedule(bool self_ok, bool offer)
{
    u32 const op = g_op++;
    if (op > 60000) engine_fail("no end", "the program does not end: more than 60000 operations; %s", describe().c_str());
    u32 alt = 0;
    bool const dec = decided(op, alt);
    if (self_ok && !dec && (!offer || !recording())) return;
    u16 alts[MAXALT];
    int n = 0;
    auto put = [&](u32 a) { if (n < MAXALT) alts[n++] = static_cast<u16>(a); };
    if (self_ok) put(static_cast<u32>(me->id));
    for (;;)
    {
        for (int k = 1; k <= g_nthreads; ++k)
        {
            int const c = me->id;
            int const i = g_policy == 0 ? (c + k) % g_nthreads : ((c - k) % g_nthreads + g_nthreads) % g_nthreads;
            if (self_ok && i == c) continue;
            if (enabled(g_threads[i])) put(static_cast<u32>(i));
        }
        if (n) break;
        // nobody can run: let time pass
        i64 first = -1;
        for (int i = 0; i < g_nthreads; ++i)
            if (timed(g_threads[i]) && (first < 0 || g_threads[i].deadline < first)) first = g_threads[i].deadline;
        if (first < 0) engine_fail("deadlock", "no thread can continue: %s", describe().c_str());
        if (++g_idle > g_max_idle) engine_fail("never", "the program waits for ever: %s", describe().c_str());
        set_time(std::max(first, g_now));
    }
    // what else could happen: time passes although somebody could run, spurious wake-ups
    i64 first = -1;
    for (int i = 0; i < g_nthreads; ++i)
        if (timed(g_threads[i]) && (first < 0 || g_threads[i].deadline < first)) first = g_threads[i].deadline;
    for (int i = 0; i < g_nthreads; ++i)
    {
        Thread &t = g_threads[i];
        if (i == me->id && self_ok) continue;
        if (timed(t) && t.deadline == first && !enabled(t) && (t.kind != B_COND || lock_free(t, t.obj2, B_MUTEX))) put(256u | static_cast<u32>(i));
        if (g_spurious && t.kind == B_COND && !t.signaled && !t.spurious && !t.timed_out && lock_free(t, t.obj2, B_MUTEX)) put(512u | static_cast<u32>(i));
    }
    if (dec)
    {
        bool ok = false;
        for (int i = 0; i < n; ++i) ok = ok || alts[i] == alt;
        if (!ok) infra("replay diverged at operation %u", op);
    }
    else
    {
        alt = alts[0];
        if (n > 1 && recording())
        {
            if (g_slot->npoint >= MAXPOINT) infra("too many schedule points");
            Point &p = g_slot->point[g_slot->npoint++];
            p.hash = state_hash();
            p.op = op;
            p.n = static_cast<u8>(n);
            p.free = 0;
            for (int i = 0; i < n; ++i) p.alt[i] = alts[i];
        }
    }
    if (g_verbose && dec) trace("--> deviation: %s t%u", alt >> 8 == 1 ? "time passes and" : alt >> 8 == 2 ? "spurious wake-up of" : "switch to", alt & 0xff);
    go_to(alt);
}

// before a visible operation on o
void point(Obj *o)
{
    bool const offer = o == nullptr || o->multi || shared_known(name(o->addr));
    schedule(true, offer);
}
// the calling thread has set kind/obj/...; returns when it was enabled and chosen
void block()
{
    me->timed_out = me->deadline >= 0 && me->deadline <= g_now;
    if (enabled(*me)) schedule(true, false);
    else schedule(false, true);
    me->kind = B_READY;
}
void unblocked() { me->deadline = -1; me->timed_out = me->signaled = me->spurious = false; }

bool on() { return g_active && me && !g_in_engine && !me->ignore; }

int real_or(int x) { return x; }

void lock_mutex(Obj *o)
{
    me->kind = B_MUTEX; me->obj = o; me->deadline = -1;
    if (o->owner == me->id) engine_fail("deadlock", "t%d locks a mutex it already holds, in %s", me->id, where(me).c_str());
    if (o->owner >= 0) block();
    me->kind = B_READY;
    o->owner = me->id;
    o->depth = 1;
    ev(o, 1, true);
    join_vc(me->vc, o->vc);
}
void unlock_mutex(Obj *o)
{
    ev(o, 2, true);
    o->owner = -1;
    release_to(o->vc);
}

template <typename F> F real(char const *n)
{
    void *p = dlsym(RTLD_NEXT, n);
    if (!p) { std::fprintf(stderr, "no %s\n", n); _exit(99); }
    return reinterpret_cast<F>(p);
}
#define REAL(n) ([]() { static auto const f = real<decltype(&::n)>(#n); return f; }())

struct Off { bool a; Off() : a(g_active) { g_active = false; } ~Off() { g_active = a; } };

i64 to_ns(clockid_t c, timespec const *ts);

constexpr i64 REAL_BASE = 1700000000ll * 1000000000ll, MONO_BASE = 1000ll * 1000000000ll;
i64 to_ns(clockid_t c, timespec const *ts)
{
    i64 const v = static_cast<i64>(ts->tv_sec) * 1000000000ll + ts->tv_nsec;
    i64 const r = v - (c == CLOCK_REALTIME ? REAL_BASE + g_wall_jump : MONO_BASE);
    return r < 0 ? 0 : r;
}

void *trampoline(void *p)
{
    Thread *t = static_cast<Thread *>(p);
    me = t;
    while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
    t->kind = B_READY;
    trace("thread starts");
    t->ret = t->fn(t->arg);
    trace("thread ends");
    t->hash = mix(t->hash, 0xdead);
    t->kind = B_DONE;
    // hand over; from here on this thread is not controlled
    schedule(false, true);
    void *r = t->ret;
    me = nullptr;
    return r;
}

// ------------------------------------------------------------------------------------------ heap
struct Block { u64 size; u64 state; };   // before each block

inline bool freed_bit(u64 a) { u64 const g = (a - HEAP_BASE) >> 3; return (reinterpret_cast<u8 *>(BITS_BASE)[g >> 3] >> (g & 7)) & 1; }
inline void poison(u64 from, u64 to)
{
    for (u64 g = from; g < to; g += 8) { u64 const k = (g - HEAP_BASE) >> 3; reinterpret_cast<u8 *>(BITS_BASE)[k >> 3] |= static_cast<u8>(1 << (k & 7)); }
}

void *heap_alloc(std::size_t n, std::size_t al)
{
    Thread *t = me;
    if (al < 16) al = 16;
    u64 p = t->heap + sizeof(Block);
    p = (p + al - 1) / al * al;
    u64 const end = p + ((n + 15) & ~15ull) + 16;
    u64 const lim = HEAP_BASE + HEAP_PER * static_cast<u64>(t->id + 1);
    if (end > lim) infra("heap of t%d exhausted", t->id);
    Block *b = reinterpret_cast<Block *>(p) - 1;
    b->size = n;
    b->state = 0xA110C;
    // what surrounds the block must not be touched
    poison(t->heap, p);
    poison((p + n + 7) & ~7ull, end);
    t->heap = end;
    return reinterpret_cast<void *>(p);
}
void heap_free(void *p)
{
    u64 const a = reinterpret_cast<u64>(p);
    Block *b = static_cast<Block *>(p) - 1;
    if (!g_active || !me) return;
    if (b->state == 0xF4EED) engine_fail("double free", "block freed twice, in %s", where(me).c_str());
    if (b->state != 0xA110C) engine_fail("bad free", "invalid pointer freed, in %s", where(me).c_str());
    b->state = 0xF4EED;
    poison(a, a + b->size);
}

// ------------------------------------------------------------------------------------------ race detection
struct Acc { u32 clk; u8 tid, off, size, flags; u32 next; void *pc; };
constexpr u32 SHADOWN = 1 << 18;
constexpr u32 ACCN = 1 << 20;
struct Cell { u64 word; u32 head; };
Cell *g_cells;
Acc *g_accs;
u32 g_nacc;
u32 g_ncell;

[[noreturn]] void race(u64 a, bool w, bool at, void *pc, Acc &x)
{
    engine_fail(("race:" + sym(pc)).c_str(), "data race: t%d %s%s in %s (%s) conflicts with an unordered %s%s by t%d in %s; address %s%llx", me->id, at ? "atomic " : "", w ? "write" : "read",
        sym(pc).c_str(), where(me).c_str(), (x.flags & 2) ? "atomic " : "", (x.flags & 1) ? "write" : "read", x.tid, sym(x.pc).c_str(), in_heap(a) ? "heap " : "", static_cast<unsigned long long>(a));
}

void access_word(u64 a, u32 size, bool w, bool at, void *pc)
{
    u64 const word = a >> 3;
    u8 const off = a & 7;
    u32 i = static_cast<u32>(mix(3, word)) & (SHADOWN - 1);
    while (g_cells[i].word && g_cells[i].word != word) i = (i + 1) & (SHADOWN - 1);
    Cell &c = g_cells[i];
    if (!c.word)
    {
        if (++g_ncell > SHADOWN * 3 / 4) infra("shadow memory exhausted");
        c.word = word;
    }
    u8 const flags = static_cast<u8>((w ? 1 : 0) | (at ? 2 : 0));
    Acc *mine = nullptr;
    for (u32 k = c.head; k; k = g_accs[k].next)
    {
        Acc &x = g_accs[k];
        if (x.tid == me->id)
        {
            if (x.off == off && x.size == size && x.flags == flags) { if (x.clk == me->vc[me->id]) return; mine = &x; }
            continue;
        }
        if ((x.off + x.size <= off) || (off + size <= x.off)) continue;
        if (!w && !(x.flags & 1)) continue;
        if (at && (x.flags & 2)) continue;
        if (x.clk > me->vc[x.tid]) race(a, w, at, pc, x);
    }
    if (mine) { mine->clk = me->vc[me->id]; mine->pc = pc; return; }
    if (g_nacc + 1 >= ACCN) infra("shadow memory exhausted");
    Acc &x = g_accs[++g_nacc];
    x.clk = me->vc[me->id];
    x.tid = static_cast<u8>(me->id);
    x.off = off;
    x.size = static_cast<u8>(size);
    x.flags = flags;
    x.pc = pc;
    x.next = c.head;
    c.head = g_nacc;
}
void access(void const *p, std::size_t n, bool w, void *pc, bool at = false)
{
    if (!on()) return;
    u64 a = reinterpret_cast<u64>(p);
    if (in_heap(a) && (freed_bit(a) || freed_bit(a + n - 1)))
        engine_fail(("use after free:" + sym(pc)).c_str(), "t%d %s memory which is freed or outside of its block, in %s (%s)", me->id, w ? "writes" : "reads", sym(pc).c_str(), where(me).c_str());
    // the calling thread's own stack is not recorded
    u64 const sb = STACK_BASE + STACK_PER * static_cast<u64>(me->id);
    if (a >= sb && a < sb + STACK_PER) return;
    while (n)
    {
        u64 const in = std::min<u64>(8 - (a & 7), n);
        access_word(a, static_cast<u32>(in), w, at, pc);
        a += in;
        n -= in;
    }
}

// memory handed out again by an allocator which is not ours: what was there before does not count
void forget(u64 a, std::size_t n)
{
    for (u64 word = a >> 3; word <= (a + n - 1) >> 3; ++word)
    {
        u32 i = static_cast<u32>(mix(3, word)) & (SHADOWN - 1);
        while (g_cells[i].word && g_cells[i].word != word) i = (i + 1) & (SHADOWN - 1);
        g_cells[i].head = 0;
    }
}

// ------------------------------------------------------------------------------------------ atomics
bool is_release(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool is_acquire(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

enum AK { A_LOAD, A_STORE, A_ADD, A_RMW, A_CAS };

struct AtomicOp
{
    Obj *o {nullptr}, *o2 {nullptr};
    bool active;
    AK kind;
    int mo;
    std::size_t size;
    void *pc;
    void *addr;

    AtomicOp(void const volatile *a, std::size_t n, AK k, int mo_, i64 addend, void *pc_) :
        active(on()), kind(k), mo(mo_), size(n), pc(pc_), addr(const_cast<void *>(a))
    {
        if (!active) return;
        o = obj(addr);
        if (size == 8 && kind == A_LOAD) o2 = obj(static_cast<char *>(addr) + 4);
        bool const refinc = kind == A_ADD && size == 4 && addend == 1 && mo == __ATOMIC_ACQ_REL;
        bool const refcas = kind == A_CAS && size == 4 && mo == __ATOMIC_ACQ_REL;
        bool const both = kind == A_LOAD && size == 8 && mo == __ATOMIC_ACQUIRE;
        touch(o);
        if (refinc || refcas || both) g_op++;
        else { point(o); }
    }
    // commuting: the operation commutes with reads and other commuting operations
    void done(bool wrote, bool commuting, u64 value)
    {
        if (!active) return;
        access(addr, size, wrote, pc, true);
        ev(o, 0x100 + static_cast<u64>(kind), wrote && !commuting);
        (void)value;
        if (is_acquire(mo))
        {
            join_vc(me->vc, o->vc);
            if (o2) join_vc(me->vc, o2->vc);
        }
        if (wrote)
        {
            if (kind == A_STORE)
            {
                // a store starts a new release sequence
                std::memset(o->vc, 0, sizeof o->vc);
                if (is_release(mo)) release_to(o->vc);
            }
            else if (is_release(mo)) release_to(o->vc);
        }
        if (g_verbose) trace("atomic %s %p (%zu bytes) value %llx", kind == A_LOAD ? "load" : kind == A_STORE ? "store" : kind == A_ADD ? "add" : kind == A_CAS ? "cas" : "rmw", addr, size, static_cast<unsigned long long>(value));
    }
};

} // namespace

// ============================================================================================ tsan entry points
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc)
{
    if (!g_active || !me || g_in_engine) return;
    if (me->depth < 512) me->stack[me->depth] = reinterpret_cast<void *>(reinterpret_cast<u64>(PC));
    (void)pc;
    me->depth++;
}
void __tsan_func_exit() { if (g_active && me && !g_in_engine && me->depth > 0) me->depth--; }
#define RW(n) \
    void __tsan_read##n(void *a) { access(a, n, false, PC); } \
    void __tsan_write##n(void *a) { access(a, n, true, PC); } \
    void __tsan_unaligned_read##n(void *a) { access(a, n, false, PC); } \
    void __tsan_unaligned_write##n(void *a) { access(a, n, true, PC); } \
    void __tsan_volatile_read##n(void *a) { access(a, n, false, PC); } \
    void __tsan_volatile_write##n(void *a) { access(a, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void *a) { access(a, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void *a) { access(a, n, true, PC); } \
    void __tsan_read##n##_pc(void *a, void *pc) { access(a, n, false, pc); } \
    void __tsan_write##n##_pc(void *a, void *pc) { access(a, n, true, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) access(a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { if (n) access(a, n, true, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access(a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access(a, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) \
    T __tsan_atomic##b##_load(T const volatile *a, int mo) { AtomicOp op(a, sizeof(T), A_LOAD, mo, 0, PC); T v = *a; op.done(false, true, static_cast<u64>(v)); return v; } \
    void __tsan_atomic##b##_store(T volatile *a, T v, int mo) { AtomicOp op(a, sizeof(T), A_STORE, mo, 0, PC); *a = v; op.done(true, false, static_cast<u64>(v)); } \
    T __tsan_atomic##b##_exchange(T volatile *a, T v, int mo) { AtomicOp op(a, sizeof(T), A_RMW, mo, 0, PC); T o = *a; *a = v; op.done(true, false, static_cast<u64>(o)); return o; } \
    T __tsan_atomic##b##_fetch_add(T volatile *a, T v, int mo) { AtomicOp op(a, sizeof(T), A_ADD, mo, static_cast<i64>(v), PC); T o = *a; *a = static_cast<T>(o + v); \
        bool const ref = sizeof(T) == 4 && mo == __ATOMIC_ACQ_REL; op.done(true, ref && (v == 1 || (v == static_cast<T>(-1) && o > 1)), static_cast<u64>(o)); return o; } \
    T __tsan_atomic##b##_fetch_sub(T volatile *a, T v, int mo) { AtomicOp op(a, sizeof(T), A_RMW, mo, 0, PC); T o = *a; *a = static_cast<T>(o - v); op.done(true, false, static_cast<u64>(o)); return o; } \
    T __tsan_atomic##b##_fetch_and(T volatile *a, T v, int mo) { AtomicOp op(a, sizeof(T), A_RMW, mo, 0, PC); T o = *a; *a = static_cast<T>(o & v); op.done(true, false, static_cast<u64>(o)); return o; } \
    T __tsan_atomic##b##_fetch_or(T volatile *a, T v, int mo) { AtomicOp op(a, sizeof(T), A_RMW, mo, 0, PC); T o = *a; *a = static_cast<T>(o | v); op.done(true, false, static_cast<u64>(o)); return o; } \
    T __tsan_atomic##b##_fetch_xor(T volatile *a, T v, int mo) { AtomicOp op(a, sizeof(T), A_RMW, mo, 0, PC); T o = *a; *a = static_cast<T>(o ^ v); op.done(true, false, static_cast<u64>(o)); return o; } \
    T __tsan_atomic##b##_fetch_nand(T volatile *a, T v, int mo) { AtomicOp op(a, sizeof(T), A_RMW, mo, 0, PC); T o = *a; *a = static_cast<T>(~(o & v)); op.done(true, false, static_cast<u64>(o)); return o; } \
    static bool cas##b(T volatile *a, T *c, T v, int mo, void *pc) { AtomicOp op(a, sizeof(T), A_CAS, mo, 0, pc); T o = *a; bool const ok = o == *c; if (ok) *a = v; else *c = o; \
        op.done(ok, sizeof(T) == 4 && mo == __ATOMIC_ACQ_REL, static_cast<u64>(o)); return ok; } \
    bool __tsan_atomic##b##_compare_exchange_strong(T volatile *a, T *c, T v, int mo, int) { return cas##b(a, c, v, mo, PC); } \
    bool __tsan_atomic##b##_compare_exchange_weak(T volatile *a, T *c, T v, int mo, int) { return cas##b(a, c, v, mo, PC); } \
    T __tsan_atomic##b##_compare_exchange_val(T volatile *a, T c, T v, int mo, int) { cas##b(a, &c, v, mo, PC); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
} // extern "C"

// ============================================================================================ pthread interposition
extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!on()) return g_active && me ? 0 : REAL(pthread_mutex_lock)(m);
    Obj *o = obj(m);
    bool const recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (recursive && o->owner == me->id) { o->depth++; return 0; }
    touch(o);
    point(o);
    trace("lock %p%s", static_cast<void *>(m), o->owner >= 0 ? " (has to wait)" : "");
    lock_mutex(o);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!on()) return g_active && me ? 0 : REAL(pthread_mutex_trylock)(m);
    Obj *o = obj(m);
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && o->owner == me->id) { o->depth++; return 0; }
    touch(o);
    point(o);
    trace("trylock %p%s", static_cast<void *>(m), o->owner >= 0 ? " fails" : "");
    if (o->owner >= 0) { ev(o, 3, false); return EBUSY; }
    lock_mutex(o);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!on()) return g_active && me ? 0 : REAL(pthread_mutex_unlock)(m);
    Obj *o = obj(m);
    if (o->owner != me->id) engine_fail("bad unlock", "t%d unlocks a mutex it does not hold, in %s", me->id, where(me).c_str());
    if (--o->depth > 0) return 0;
    if (in_heap(o->addr) && freed_bit(o->addr)) engine_fail("use after free:mutex", "t%d unlocks a mutex in freed memory, in %s", me->id, where(me).c_str());
    trace("unlock %p", static_cast<void *>(m));
    unlock_mutex(o);
    g_op++;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (!on()) return g_active && me ? 0 : REAL(pthread_mutex_destroy)(m);
    return 0;
}
static int rwlock(pthread_rwlock_t *l, int kind)
{
    Obj *o = obj(l);
    touch(o);
    point(o);
    trace("%s lock %p", kind == B_RDLOCK ? "shared" : "exclusive", static_cast<void *>(l));
    if (o->owner == me->id) engine_fail("deadlock", "t%d locks a lock it already holds exclusively, in %s", me->id, where(me).c_str());
    me->kind = kind; me->obj = o; me->deadline = -1;
    if (!enabled(*me)) block();
    me->kind = B_READY;
    if (kind == B_RDLOCK) { o->readers++; ev(o, 4, false); join_vc(me->vc, o->vc); }
    else { o->owner = me->id; ev(o, 5, true); join_vc(me->vc, o->vc); join_vc(me->vc, o->rvc); }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return on() ? rwlock(l, B_RDLOCK) : (g_active && me) ? 0 : REAL(pthread_rwlock_rdlock)(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return on() ? rwlock(l, B_WRLOCK) : (g_active && me) ? 0 : REAL(pthread_rwlock_wrlock)(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l)
{
    if (!on()) return (g_active && me) ? 0 : REAL(pthread_rwlock_tryrdlock)(l);
    Obj *o = obj(l); touch(o); point(o);
    if (o->owner >= 0) { ev(o, 3, false); return EBUSY; }
    o->readers++; ev(o, 4, false); join_vc(me->vc, o->vc);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l)
{
    if (!on()) return (g_active && me) ? 0 : REAL(pthread_rwlock_trywrlock)(l);
    Obj *o = obj(l); touch(o); point(o);
    if (o->owner >= 0 || o->readers) { ev(o, 3, false); return EBUSY; }
    o->owner = me->id; ev(o, 5, true); join_vc(me->vc, o->vc); join_vc(me->vc, o->rvc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (!on()) return (g_active && me) ? 0 : REAL(pthread_rwlock_unlock)(l);
    Obj *o = obj(l);
    trace("unlock %p", static_cast<void *>(l));
    if (o->owner == me->id) { ev(o, 6, true); o->owner = -1; release_to(o->vc); }
    else
    {
        if (o->readers <= 0) engine_fail("bad unlock", "t%d unlocks a lock nobody holds, in %s", me->id, where(me).c_str());
        o->readers--;
        ev(o, 7, false);
        release_to(o->rvc);
    }
    g_op++;
    return 0;
}

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline)
{
    Obj *co = obj(c), *mo = obj(m);
    if (mo->owner != me->id) engine_fail("bad wait", "t%d waits with a mutex it does not hold, in %s", me->id, where(me).c_str());
    touch(co);
    trace("wait on %p%s", static_cast<void *>(c), deadline >= 0 ? " (timed)" : "");
    ev(co, 8, true);
    unlock_mutex(mo);
    me->kind = B_COND;
    me->obj = co; me->obj2 = mo; me->cond = c;
    me->signaled = me->spurious = false;
    me->deadline = deadline;
    me->seq = ++g_seq;
    block();
    bool const timed_out = !me->signaled && !me->spurious;
    unblocked();
    me->hash = mix(me->hash, timed_out ? 0x70 : 0x71);
    lock_mutex(mo);
    trace("wait on %p over%s", static_cast<void *>(c), timed_out ? ": timed out" : "");
    return timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return on() ? cond_wait(c, m, -1) : REAL(pthread_cond_wait)(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *ts) { return on() ? cond_wait(c, m, to_ns(CLOCK_REALTIME, ts)) : REAL(pthread_cond_timedwait)(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, timespec const *ts) { return on() ? cond_wait(c, m, to_ns(k, ts)) : REAL(pthread_cond_clockwait)(c, m, k, ts); }
static void wake(Thread &t, Obj *o)
{
    t.signaled = true;
    t.hash = mix(t.hash, o->w);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!on()) return g_active && me ? 0 : REAL(pthread_cond_signal)(c);
    Obj *o = obj(c);
    touch(o);
    point(o);
    ev(o, 9, true);
    int cand[MAXT], n = 0;
    for (int i = 0; i < g_nthreads; ++i)
    {
        Thread &t = g_threads[i];
        if (t.kind == B_COND && t.cond == c && !t.signaled && !t.spurious && !t.timed_out) cand[n++] = i;
    }
    std::sort(cand, cand + n, [](int a, int b) { return g_threads[a].seq < g_threads[b].seq; });
    int k = 0;
    if (n > 1) k = mc::choose(n, "which waiter is woken", false);
    trace("notify_one %p: %s", static_cast<void *>(c), n ? ("wakes t" + std::to_string(cand[k])).c_str() : "nobody waits");
    if (n) wake(g_threads[cand[k]], o);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!on()) return g_active && me ? 0 : REAL(pthread_cond_broadcast)(c);
    Obj *o = obj(c);
    touch(o);
    point(o);
    ev(o, 10, true);
    trace("notify_all %p", static_cast<void *>(c));
    for (int i = 0; i < g_nthreads; ++i)
    {
        Thread &t = g_threads[i];
        if (t.kind == B_COND && t.cond == c && !t.signaled && !t.spurious && !t.timed_out) wake(t, o);
    }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) { return g_active && me ? 0 : REAL(pthread_cond_destroy)(c); }

int pthread_create(pthread_t *th, pthread_attr_t const *attr, void *(*fn)(void *), void *arg)
{
    if (!on()) return REAL(pthread_create)(th, attr, fn, arg);
    if (g_nthreads >= MAXT) infra("too many threads");
    int const id = g_nthreads++;
    Thread &t = g_threads[id];
    t.id = id;
    t.kind = B_READY;
    t.fn = fn;
    t.arg = arg;
    t.deadline = -1;
    t.heap = HEAP_BASE + HEAP_PER * static_cast<u64>(id);
    std::memcpy(t.vc, me->vc, sizeof t.vc);
    t.vc[id] = 1;
    me->vc[me->id]++;
    me->hash = mix(me->hash, 0xc0 + static_cast<u64>(id));
    t.hash = mix(me->hash, 0xc1);
    trace("creates t%d", id);
    int r;
    {
        Off off;
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstack(&a, reinterpret_cast<void *>(STACK_BASE + STACK_PER * static_cast<u64>(id)), STACK_PER);
        r = REAL(pthread_create)(&t.pt, &a, trampoline, &t);
    }
    if (r) infra("pthread_create failed: %d", r);
    *th = t.pt;
    g_op++;
    return 0;
}
int pthread_join(pthread_t th, void **ret)
{
    if (!on()) return REAL(pthread_join)(th, ret);
    int target = -1;
    for (int i = 0; i < g_nthreads; ++i) if (g_threads[i].pt == th && !g_threads[i].detached) target = i;
    if (target < 0) infra("join of an unknown thread");
    trace("joins t%d", target);
    me->kind = B_JOIN;
    me->target = target;
    me->deadline = -1;
    if (!enabled(*me)) block();
    me->kind = B_READY;
    join_vc(me->vc, g_threads[target].vc);
    me->hash = mix(mix(me->hash, 0xd0), g_threads[target].hash);
    int r;
    { Off off; r = REAL(pthread_join)(th, ret); }
    g_threads[target].detached = true;
    g_op++;
    return r;
}
int pthread_detach(pthread_t th)
{
    if (on()) for (int i = 0; i < g_nthreads; ++i) if (g_threads[i].pt == th) g_threads[i].detached = true;
    return REAL(pthread_detach)(th);
}
int sched_yield()
{
    if (!on()) return g_active && me ? 0 : REAL(sched_yield)();
    // give way: others first
    point(nullptr);
    me->kind = B_SLEEP; me->deadline = g_now + 1000;
    block();
    unblocked();
    return 0;
}
static int vsleep(i64 until)
{
    trace("sleeps until %.1f ms", static_cast<double>(until) / 1e6);
    me->kind = B_SLEEP;
    me->deadline = until;
    block();
    unblocked();
    me->hash = mix(me->hash, static_cast<u64>(g_now) + 5);
    return 0;
}
int nanosleep(timespec const *ts, timespec *rem)
{
    if (!on()) return g_active && me ? 0 : REAL(nanosleep)(ts, rem);
    return vsleep(g_now + static_cast<i64>(ts->tv_sec) * 1000000000ll + ts->tv_nsec);
}
int clock_nanosleep(clockid_t c, int flags, timespec const *ts, timespec *rem)
{
    if (!on()) return g_active && me ? 0 : REAL(clock_nanosleep)(c, flags, ts, rem);
    return vsleep((flags & TIMER_ABSTIME) ? to_ns(c, ts) : g_now + static_cast<i64>(ts->tv_sec) * 1000000000ll + ts->tv_nsec);
}
int usleep(useconds_t us) { if (!on()) return g_active && me ? 0 : REAL(usleep)(us); return vsleep(g_now + static_cast<i64>(us) * 1000); }
unsigned sleep(unsigned s) { if (!on()) return g_active && me ? 0 : REAL(sleep)(s); vsleep(g_now + static_cast<i64>(s) * 1000000000ll); return 0; }

int clock_gettime(clockid_t c, timespec *ts) noexcept
{
    if (!(g_active && me) || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_REALTIME_COARSE && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_MONOTONIC_RAW && c != CLOCK_BOOTTIME))
        return static_cast<int>(::syscall(SYS_clock_gettime, c, ts));
    i64 const base = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? REAL_BASE + g_wall_jump : MONO_BASE;
    i64 const v = base + g_now;
    ts->tv_sec = v / 1000000000ll;
    ts->tv_nsec = v % 1000000000ll;
    if (on()) me->hash = mix(me->hash, static_cast<u64>(g_now) + 3);
    return 0;
}
int gettimeofday(timeval *tv, void *) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *out) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}

int pthread_once(pthread_once_t *c, void (*fn)())
{
    if (!on()) { if (g_active && me) { if (*c != 2) { *c = 2; fn(); } return 0; } return REAL(pthread_once)(c, fn); }
    Obj *o = obj(c);
    touch(o);
    point(o);
    while (o->once == 1)
    {
        me->kind = B_ONCE; me->obj = o; me->deadline = -1;
        block();
    }
    if (o->once == 2 || *c == 2) { o->once = 2; ev(o, 20, false); join_vc(me->vc, o->vc); return 0; }
    ev(o, 21, true);
    o->once = 1;
    try { fn(); }
    catch (...) { o->once = 0; ev(o, 22, true); throw; }
    o->once = 2;
    *c = 2;
    ev(o, 23, true);
    release_to(o->vc);
    return 0;
}
int __cxa_guard_acquire(long long *g)
{
    auto *b = reinterpret_cast<u8 *>(g);
    if (!on())
    {
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    Obj *o = obj(reinterpret_cast<char *>(g) + 1);
    touch(o);
    point(o);
    if (b[0]) { ev(o, 24, false); join_vc(me->vc, o->vc); return 0; }
    while (o->once == 1)
    {
        me->kind = B_ONCE; me->obj = o; me->deadline = -1;
        block();
    }
    if (b[0]) { ev(o, 24, false); join_vc(me->vc, o->vc); join_vc(me->vc, obj(g)->vc); return 0; }
    o->once = 1;
    ev(o, 25, true);
    return 1;
}
void __cxa_guard_release(long long *g)
{
    auto *b = reinterpret_cast<u8 *>(g);
    b[0] = 1;
    if (!on()) return;
    Obj *o = obj(reinterpret_cast<char *>(g) + 1);
    o->once = 2;
    ev(o, 26, true);
    join_vc(o->vc, me->vc);
    release_to(obj(g)->vc);
}
void __cxa_guard_abort(long long *g)
{
    if (!on()) return;
    Obj *o = obj(reinterpret_cast<char *>(g) + 1);
    o->once = 0;
    ev(o, 27, true);
}
} // extern "C"

// future waiting
namespace std {
static bool futex_wait(unsigned *a, unsigned v, i64 deadline)
{
    Obj *o = obj(a);
    touch(o);
    trace("waits on future %p", static_cast<void *>(a));
    me->kind = B_FUTEX; me->fut = a; me->futval = v; me->deadline = deadline;
    block();
    bool const timed_out = *a == v;
    unblocked();
    ev(o, 30, false);
    g_op++;
    return !timed_out;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns)
{
    if (!on()) { while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) ::syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); return true; }
    timespec ts {s.count(), ns.count()};
    return futex_wait(a, v, has ? to_ns(CLOCK_REALTIME, &ts) : -1);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns)
{
    if (!on()) { while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) ::syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); return true; }
    timespec ts {s.count(), ns.count()};
    return futex_wait(a, v, has ? to_ns(CLOCK_MONOTONIC, &ts) : -1);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a)
{
    if (!on()) { ::syscall(SYS_futex, a, FUTEX_WAKE, 0x7fffffff, nullptr, nullptr, 0); return; }
}
} // namespace std

// ============================================================================================ heap
static void *do_new(std::size_t n, std::size_t al)
{
    if (g_active && me && !g_in_engine) return heap_alloc(n, al);
    void *p = al > 16 ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void do_delete(void *p)
{
    if (!p) return;
    if (in_heap(reinterpret_cast<u64>(p))) { heap_free(p); return; }
    std::free(p);
}
extern "C" void *__cxa_allocate_exception(std::size_t n) noexcept
{
    static auto const f = real<void *(*)(std::size_t)>("__cxa_allocate_exception");
    void *p = f(n);
    if (g_active && me) forget(reinterpret_cast<u64>(p), n);
    return p;
}
void *operator new(std::size_t n) { return do_new(n, 16); }
void *operator new[](std::size_t n) { return do_new(n, 16); }
void *operator new(std::size_t n, std::nothrow_t const &) noexcept { return do_new(n, 16); }
void *operator new[](std::size_t n, std::nothrow_t const &) noexcept { return do_new(n, 16); }
void *operator new(std::size_t n, std::align_val_t a) { return do_new(n, static_cast<std::size_t>(a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return do_new(n, static_cast<std::size_t>(a)); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, std::size_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::size_t) noexcept { do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { do_delete(p); }

// ============================================================================================ harness API
namespace mc {

struct Prog { std::string name; Opt opt; std::function<void()> body; };
static std::vector<Prog> &progs() { static std::vector<Prog> v; return v; }
void program(std::string name, Opt opt, std::function<void()> body) { progs().push_back({std::move(name), opt, std::move(body)}); }
bool thorough() { return g_common->thorough; }

void fail(char const *key, char const *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vfail(key, fmt, ap);
}
void check(bool ok, char const *key, char const *fmt, ...)
{
    if (ok) return;
    va_list ap; va_start(ap, fmt);
    vfail(key, fmt, ap);
}
void note(char const *fmt, ...)
{
    if (!g_verbose) return;
    va_list ap; va_start(ap, fmt);
    char b[600];
    std::vsnprintf(b, sizeof b, fmt, ap);
    trace("%s", b);
}
int choose(int n, char const *what, bool free)
{
    if (!g_active || !me || n <= 1) return 0;
    u32 const op = g_op++;
    u32 v = 0;
    if (!decided(op, v) && recording())
    {
        if (g_slot->npoint >= MAXPOINT) infra("too many choice points");
        if (n > MAXALT) infra("too many alternatives");
        Point &p = g_slot->point[g_slot->npoint++];
        p.hash = mix(state_hash(), 0xc401ce);
        p.op = op;
        p.n = static_cast<u8>(n);
        p.free = free ? 1 : 0;
        for (int i = 0; i < n; ++i) p.alt[i] = static_cast<u16>(i);
    }
    me->hash = mix(me->hash, 0xc400 + v);
    trace("choice %s: %u", what, v);
    return static_cast<int>(v);
}
void visible(void const *object, char const *what, bool write)
{
    if (!on()) return;
    Obj *o = obj(object);
    touch(o);
    point(o);
    trace("%s", what);
    ev(o, 40, write);
}
Ignore::Ignore() { if (me) me->ignore++; }
Ignore::~Ignore() { if (me) me->ignore--; }

bool block_until(std::function<bool()> pred, char const *what, i64 deadline)
{
    int const ig = me->ignore;
    me->ignore = 0;
    trace("%s", what);
    me->kind = B_PRED;
    me->pred = &pred;
    me->what = what;
    me->deadline = deadline;
    block();
    unblocked();
    ++g_in_engine;
    bool const r = pred();
    --g_in_engine;
    me->hash = mix(me->hash, r ? 0x91 : 0x90);
    me->ignore = ig;
    return r;
}
i64 now_ns() { return g_now; }
void jump_wall_clock(i64 ns) { g_wall_jump += ns; }
int idle_advances() { return g_idle; }
int self() { return me ? me->id : -1; }
int live_threads()
{
    int n = 0;
    for (int i = 0; i < g_nthreads; ++i) n += g_threads[i].kind != B_DONE;
    return n;
}
bool is_freed(void const *p) { u64 const a = reinterpret_cast<u64>(p); return in_heap(a) && freed_bit(a); }

struct Log::Impl { std::vector<i64> v; };
Log::Log() : m(new Impl) {}
void Log::add(i64 x)
{
    if (on())
    {
        Obj *o = obj(m);
        touch(o);
        point(o);
        trace("log %lld", static_cast<long long>(x));
        me->hash = mix(me->hash, static_cast<u64>(x));
        ev(o, 41, true);
        release_to(o->vc);
    }
    Ignore ig;
    m->v.push_back(x);
}
void Log::wait(std::size_t n, char const *what)
{
    Impl *p = m;
    block_until([p, n] { return p->v.size() >= n; }, what, -1);
    Obj *o = obj(m);
    ev(o, 42, false);
    join_vc(me->vc, o->vc);
}
bool Log::wait_for(std::size_t n, i64 ns)
{
    Impl *p = m;
    bool const r = block_until([p, n] { return p->v.size() >= n; }, "waits for the log", g_now + ns);
    Obj *o = obj(m);
    ev(o, 42, false);
    join_vc(me->vc, o->vc);
    return r;
}
std::size_t Log::size() const { Ignore ig; return m->v.size(); }
std::vector<i64> Log::get() const
{
    if (on()) { Obj *o = obj(m); ev(o, 42, false); join_vc(me->vc, o->vc); }
    Ignore ig;
    return m->v;
}
std::string Log::text() const
{
    Ignore ig;
    std::string s;
    for (auto x : m->v) s += (s.empty() ? "" : " ") + std::to_string(x);
    return s;
}
void release(void const *object) { if (on()) { Obj *o = obj(object); ev(o, 43, true); release_to(o->vc); } }
void acquire(void const *object) { if (on()) { Obj *o = obj(object); ev(o, 44, false); join_vc(me->vc, o->vc); } }

} // namespace mc

// ============================================================================================ explorer
namespace {

void *map_at(u64 at, std::size_t n)
{
    void *p = mmap(reinterpret_cast<void *>(at), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); _exit(98); }
    return p;
}

int mod_cb(dl_phdr_info *i, std::size_t, void *)
{
    u64 lo = ~0ull, hi = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD)
        {
            lo = std::min<u64>(lo, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
            hi = std::max<u64>(hi, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz);
        }
    if (g_nmods < 64 && hi) { g_mods[g_nmods] = {lo, hi, static_cast<u64>(g_nmods) + 1}; ++g_nmods; }
    return 0;
}

void *main_thread(void *p)
{
    auto *prog = static_cast<mc::Prog *>(p);
    me = &g_threads[0];
    g_active = true;
    prog->body();
    if (!g_leak_ok)
        for (int i = 1; i < g_nthreads; ++i)
            if (g_threads[i].kind != B_DONE) engine_fail("thread left", "a thread is still alive at the end of the program: %s", describe().c_str());
    g_active = false;
    end_execution(ST_OK);
}

[[noreturn]] void run_child(Slot *s)
{
    g_slot = s;
    s->status = ST_NONE;
    s->npoint = s->nshared = 0;
    s->nops = s->nswitch = 0;
    s->key[0] = s->msg[0] = 0;
    auto &prog = mc::progs()[static_cast<std::size_t>(s->program)];
    g_policy = s->policy;
    g_verbose = s->verbose;
    g_max_idle = prog.opt.max_idle;
    g_spurious = prog.opt.spurious;
    g_leak_ok = prog.opt.leak_ok;
    g_nthreads = 1;
    Thread &t = g_threads[0];
    t.id = 0;
    t.kind = B_READY;
    t.deadline = -1;
    t.vc[0] = 1;
    t.heap = HEAP_BASE;
    t.go = 1;
    t.hash = 1;
    // an endless loop uses processor time; an execution which merely gets none is given another chance (see zygote)
    itimerval const cpu {{0, 0}, {12, 0}};
    setitimer(ITIMER_PROF, &cpu, nullptr);
    alarm(60);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, reinterpret_cast<void *>(STACK_BASE), STACK_PER);
    pthread_t pt;
    if (REAL(pthread_create)(&pt, &a, main_thread, &prog)) _exit(97);
    for (;;) pause();
}

void zygote(Slot *s, int rd, int wr, int cpu)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    cpu_set_t all;
    if (sched_getaffinity(0, sizeof all, &all) == 0)
    {
        int n = CPU_COUNT(&all), k = cpu % std::max(n, 1);
        for (int c = 0; c < CPU_SETSIZE; ++c)
            if (CPU_ISSET(c, &all) && k-- == 0) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; }
    }
    char b;
    while (read(rd, &b, 1) == 1)
    {
        pid_t pid = -1;
        int st = 0;
        for (int attempt = 0; attempt < 3; ++attempt)
        {
            pid = fork();
            if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); run_child(s); }
            st = 0;
            if (pid > 0) while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (pid < 0 || s->status != ST_NONE || !WIFSIGNALED(st) || WTERMSIG(st) != SIGALRM) break;
        }
        if (pid < 0) { s->status = ST_INFRA; std::snprintf(s->msg, sizeof s->msg, "fork: %s", std::strerror(errno)); }
        else
        {
            if (s->status == ST_NONE)
            {
                if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF))
                { s->status = ST_CRASH; std::snprintf(s->key, sizeof s->key, "hang"); std::snprintf(s->msg, sizeof s->msg, "the execution does not end although no thread waits (endless loop)"); }
                else if (WIFSIGNALED(st))
                { s->status = ST_CRASH; std::snprintf(s->key, sizeof s->key, "crash"); std::snprintf(s->msg, sizeof s->msg, "the program was ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
                else { s->status = ST_CRASH; std::snprintf(s->key, sizeof s->key, "exit"); std::snprintf(s->msg, sizeof s->msg, "the program exited with status %d", WEXITSTATUS(st)); }
            }
        }
        if (write(wr, &b, 1) != 1) _exit(0);
    }
    _exit(0);
}

std::string jesc(std::string const &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}

using Decs = std::vector<Decision>;
std::string decs_text(Decs const &d)
{
    std::string s;
    for (auto const &x : d) s += (s.empty() ? "" : ",") + std::to_string(x.op) + ":" + std::to_string(x.alt);
    return s.empty() ? "-" : s;
}

// open-addressing map hash -> best remaining budget + 1
struct Seen
{
    std::vector<u64> k;
    std::vector<u8> v;
    std::size_t n {0};
    Seen() : k(1 << 16), v(1 << 16) {}
    void grow()
    {
        std::vector<u64> ok(k.size() * 2); std::vector<u8> ov(v.size() * 2);
        ok.swap(k); ov.swap(v);
        n = 0;
        for (std::size_t i = 0; i < ok.size(); ++i) if (ov[i]) improve(ok[i], ov[i] - 1);
    }
    // returns whether rem is better than what is stored
    bool improve(u64 key, int rem)
    {
        if (n * 2 > k.size()) grow();
        std::size_t i = key & (k.size() - 1);
        while (v[i] && k[i] != key) i = (i + 1) & (k.size() - 1);
        if (v[i] && v[i] >= rem + 1) return false;
        if (!v[i]) ++n;
        k[i] = key;
        v[i] = static_cast<u8>(rem + 1);
        return true;
    }
};

struct Fail { std::string key, msg; std::string program; int policy; Decs d; };

} // namespace

int main(int argc, char **argv)
{
    std::string out, log, only, choices;
    int shards = 8, policy = 0;
    bool thorough = false, verbose = false, replay = false;
    double budget = 0;
    int bound_override = -1;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--out") out = next();
        else if (a == "--log") log = next();
        else if (a == "--shards") shards = std::atoi(next().c_str());
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") verbose = true;
        else if (a == "--program") only = next();
        else if (a == "--policy") policy = std::atoi(next().c_str());
        else if (a == "--choices") { choices = next(); replay = true; }
        else if (a == "--budget") budget = std::atof(next().c_str());
        else if (a == "--bound") bound_override = std::atoi(next().c_str());
    }
    if (budget == 0) budget = thorough ? 3000 : 420;
    shards = std::max(1, std::min(shards, 16));
    std::vector<std::string> known;
    if (char const *kf = std::getenv("MC_KNOWN"))
        if (FILE *f = std::fopen(kf, "r")) { char b[512]; while (std::fgets(b, sizeof b, f)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty()) known.push_back(s); } std::fclose(f); }

    g_common = static_cast<Common *>(mmap(nullptr, sizeof(Common), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_common->thorough = thorough;
    g_threads = static_cast<Thread *>(map_at(0x230000000000ull, sizeof(Thread) * MAXT));
    g_objs = static_cast<Obj *>(map_at(0, sizeof(Obj) * OBJN));
    g_cells = static_cast<Cell *>(map_at(0, sizeof(Cell) * SHADOWN));
    g_accs = static_cast<Acc *>(map_at(0, sizeof(Acc) * ACCN));
    map_at(HEAP_BASE, HEAP_PER * MAXT);
    map_at(STACK_BASE, STACK_PER * MAXT);
    map_at(BITS_BASE, HEAP_PER * MAXT / 64);
    dl_iterate_phdr(mod_cb, nullptr);
    programs();
    auto &ps = mc::progs();

    std::vector<Slot *> slots;
    std::vector<int> wr, rd;
    if (replay) shards = 1;
    for (int k = 0; k < shards; ++k)
    {
        auto *s = static_cast<Slot *>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return 98;
        std::fflush(stdout);
        pid_t const pid = fork();
        if (pid == 0)
        {
            close(a[1]); close(b[0]);
            for (int w : wr) close(w);
            for (int r : rd) close(r);
            if (!verbose && !log.empty())
            {
                int const fd = open((log + "." + std::to_string(k)).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
                if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
            }
            zygote(s, a[0], b[1], k);
        }
        close(a[0]); close(b[1]);
        slots.push_back(s);
        wr.push_back(a[1]);
        rd.push_back(b[0]);
    }
    auto launch = [&](int k, int prog, int pol, Decs const &d) {
        Slot *s = slots[static_cast<std::size_t>(k)];
        s->program = prog;
        s->policy = pol;
        s->verbose = verbose && replay;
        s->ndec = static_cast<int>(d.size());
        std::copy(d.begin(), d.end(), s->dec);
        char c = 'x';
        if (write(wr[static_cast<std::size_t>(k)], &c, 1) != 1) { std::fprintf(stderr, "zygote gone\n"); _exit(97); }
    };
    auto wait_slot = [&](int k) { char c; if (read(rd[static_cast<std::size_t>(k)], &c, 1) != 1) { std::fprintf(stderr, "zygote gone\n"); _exit(97); } };

    if (replay)
    {
        int pi = -1;
        for (std::size_t i = 0; i < ps.size(); ++i) if (ps[i].name == only) pi = static_cast<int>(i);
        if (pi < 0) { std::printf("no program %s\n", only.c_str()); return 2; }
        Decs d;
        if (choices != "-")
            for (char const *p = choices.c_str(); *p;)
            {
                unsigned a = 0, b = 0;
                int n = 0;
                if (std::sscanf(p, "%u:%u%n", &a, &b, &n) != 2) break;
                d.push_back({a, b});
                p += n;
                if (*p == ',') ++p;
            }
        launch(0, pi, policy, d);
        wait_slot(0);
        Slot *s = slots[0];
        std::printf("%s: %s %s\n", s->status == ST_OK ? "ok" : s->status == ST_INFRA ? "INFRA" : "FAIL", s->key, s->msg);
        if (s->status == ST_OK && verbose) std::printf("%d points, %llu operations, %llu switches, hash %llx\n", s->npoint, (unsigned long long)s->nops, (unsigned long long)s->nswitch, (unsigned long long)s->final_hash);
        return s->status == ST_OK ? 0 : s->status == ST_INFRA ? 3 : 1;
    }

    timespec t0;
    REAL(clock_gettime)(CLOCK_MONOTONIC, &t0);
    auto elapsed = [&] { timespec t; REAL(clock_gettime)(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec - t0.tv_sec) + static_cast<double>(t.tv_nsec - t0.tv_nsec) / 1e9; };

    u64 executions = 0, transitions = 0, states = 0, traces = 0, nontrivial = 0, pruned = 0, ops = 0;
    std::vector<Fail> fails;
    std::set<std::string> known_hit;
    bool is_infra = false, complete = true;
    std::string bounds;
    std::vector<std::string> samples;
    int nprog = 0;
    std::size_t todo = 0;
    for (auto const &p : ps) if ((only.empty() || p.name == only) && (thorough ? p.opt.thorough : p.opt.quick) >= 0) ++todo;

    for (std::size_t pi = 0; pi < ps.size(); ++pi)
    {
        if (!only.empty() && ps[pi].name != only) continue;
        int bound = thorough ? ps[pi].opt.thorough : ps[pi].opt.quick;
        if (bound < 0) continue;
        if (bound_override >= 0) bound = bound_override;
        ++nprog;
        double const prog_end = elapsed() + (budget - elapsed()) / static_cast<double>(std::max<std::size_t>(1, todo--)) * 1.6;
        double const pstart = elapsed();
        std::memset(const_cast<u64 *>(g_common->shared), 0, sizeof g_common->shared);
        u64 pexec = 0, pstates = 0, ptraces = 0, ptrans = 0;
        int done_bound = bound;
        bool failed = false;
        std::size_t const fails_before = fails.size();
        std::set<u64> names;
        bool again = true;
        int rounds = 0;
        while (again && !failed)
        {
            again = false;
            ++rounds;
            pstates = ptraces = ptrans = 0;
            done_bound = bound;
            Seen seen, state_seen, trace_seen;
            // level by level: number of deviations used
            struct Item { Decs d; int pol; };
            std::vector<std::deque<Item>> levels(static_cast<std::size_t>(bound) + 1);
            for (int p = 0; p < ps[pi].opt.policies; ++p) levels[0].push_back({{}, p});
            std::vector<Item> running(slots.size());
            std::vector<int> lvl(slots.size(), -1);
            u64 since = 0;
            bool out_of_time = false, restart = false;
            for (int L = 0; L <= bound && !failed && !out_of_time && !restart; ++L)
            {
                int busy = 0;
                auto &q = levels[static_cast<std::size_t>(L)];
                for (;;)
                {
                    if (elapsed() > std::min(prog_end, budget * 1.3)) { out_of_time = true; }
                    if (!out_of_time && !restart && !failed)
                        for (std::size_t k = 0; k < slots.size() && !q.empty(); ++k)
                            if (lvl[k] < 0)
                            {
                                running[k] = std::move(q.front());
                                q.pop_front();
                                lvl[k] = L;
                                ++busy;
                                launch(static_cast<int>(k), static_cast<int>(pi), running[k].pol, running[k].d);
                            }
                    if (!busy) break;
                    std::vector<pollfd> fds;
                    std::vector<int> which;
                    for (std::size_t k = 0; k < slots.size(); ++k) if (lvl[k] >= 0) { fds.push_back({rd[k], POLLIN, 0}); which.push_back(static_cast<int>(k)); }
                    ::poll(fds.data(), fds.size(), -1);
                    for (std::size_t f = 0; f < fds.size(); ++f)
                    {
                        if (!(fds[f].revents & (POLLIN | POLLHUP))) continue;
                        int const k = which[f];
                        wait_slot(k);
                        lvl[static_cast<std::size_t>(k)] = -1;
                        --busy;
                        Slot *s = slots[static_cast<std::size_t>(k)];
                        Item &it = running[static_cast<std::size_t>(k)];
                        ++executions; ++pexec; ++since;
                        ops += s->nops;
                        if (s->nswitch > 2) ++nontrivial;
                        if (s->status == ST_INFRA) { is_infra = true; if (fails.empty()) std::printf("infra: %s: %s (choices %s)\n", ps[pi].name.c_str(), s->msg, decs_text(it.d).c_str()); failed = true; }
                        else if (s->status != ST_OK)
                        {
                            std::string key = ps[pi].name + ":" + s->key;
                            for (auto &c : key) if (c == ' ') c = '_';
                            if (std::find(known.begin(), known.end(), key) != known.end()) known_hit.insert(key);
                            else
                            {
                                if (verbose) std::printf("FAIL %s: %s (choices %s)\n", key.c_str(), s->msg, decs_text(it.d).c_str());
                                fails.push_back({key, s->msg, ps[pi].name, it.pol, it.d});
                                failed = true;
                            }
                        }
                        for (int j = 0; j < s->nshared; ++j)
                            if (names.insert(s->shared[j]).second && bound > 0) { again = true; }
                        if (s->status == ST_OK && trace_seen.improve(s->final_hash, 0)) ++ptraces;
                        int const rem = bound - L;
                        for (int j = 0; j < s->npoint; ++j)
                        {
                            Point &p = s->point[j];
                            u64 const ph = mix(p.hash, static_cast<u64>(it.pol));
                            if (state_seen.improve(ph, 0)) ++pstates;
                            // the default continuation
                            if (seen.improve(mix(ph, p.alt[0]), rem)) ++ptrans;
                            for (int a = 1; a < p.n; ++a)
                            {
                                int const r2 = p.free ? rem : rem - 1;
                                if (r2 < 0) continue;
                                if (static_cast<int>(it.d.size()) >= MAXDEC) continue;
                                if (!seen.improve(mix(ph, p.alt[a]), r2)) { ++pruned; continue; }
                                ++ptrans;
                                Decs d = it.d;
                                d.push_back({p.op, p.alt[a]});
                                levels[static_cast<std::size_t>(bound - r2)].push_back({std::move(d), it.pol});
                            }
                        }
                        if (samples.size() < 10 && (pexec == 1 || pexec == 50))
                            samples.push_back(ps[pi].name + ": schedule " + decs_text(it.d) + " (" + std::to_string(s->nops) + " operations, " + std::to_string(s->nswitch) + " context switches)");
                        // new shared locations: their operations have to be schedule points as well
                        if (again && since < 3000) restart = true;
                    }
                }
                if (out_of_time) { done_bound = L - 1; }
            }
            if (out_of_time) { complete = false; again = false; }
            if (again) for (u64 n : names) shared_add(n);
        }
        states += pstates;
        traces += ptraces;
        transitions += ptrans;
        char b[400];
        std::snprintf(b, sizeof b, "%s: %s bound %d, %llu schedules, %llu states, %llu distinct traces, %d rounds, %.1f s", ps[pi].name.c_str(),
            fails.size() > fails_before ? "FAILED," : done_bound == bound ? "complete to" : "time ran out, complete to", done_bound, (unsigned long long)pexec, (unsigned long long)pstates, (unsigned long long)ptraces, rounds, elapsed() - pstart);
        bounds += (bounds.empty() ? "" : "; ") + std::string(b);
        if (verbose || out.empty()) { std::printf("%s\n", b); std::fflush(stdout); }
        if (fails.size() >= 8) break;
    }
    for (int w : wr) close(w);
    while (wait(nullptr) > 0) {}
    if (!out.empty())
    {
        std::string tmp = out + ".tmp";
        FILE *f = std::fopen(tmp.c_str(), "w");
        std::fprintf(f, "{\"evaluations\":%llu,\"schedules\":%llu,\"distinct_nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"pruned\":%llu,\"programs\":%d,\"complete\":%s,\"infra\":%s,\"space\":%llu,\"bounds\":\"%s\",\n",
            (unsigned long long)executions, (unsigned long long)executions, (unsigned long long)nontrivial, (unsigned long long)states, (unsigned long long)transitions, (unsigned long long)traces,
            (unsigned long long)pruned, nprog, complete ? "true" : "false", is_infra ? "true" : "false", (unsigned long long)ops, jesc(bounds).c_str());
        std::fprintf(f, "\"failures\":[");
        for (std::size_t i = 0; i < fails.size(); ++i)
            std::fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"replay\":[\"--program\",\"%s\",\"--policy\",\"%d\",\"--choices\",\"%s\"]}", i ? "," : "", jesc(fails[i].key).c_str(), jesc(fails[i].msg).c_str(), jesc(fails[i].program).c_str(), fails[i].policy, decs_text(fails[i].d).c_str());
        std::fprintf(f, "],\n\"known_hits\":[");
        bool first = true;
        for (auto const &k : known_hit) { std::fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(k).c_str()); first = false; }
        std::fprintf(f, "],\n\"samples\":[");
        for (std::size_t i = 0; i < samples.size(); ++i) std::fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
        std::fprintf(f, "]}\n");
        std::fclose(f);
        std::rename(tmp.c_str(), out.c_str());
    }
    return fails.empty() ? (is_infra ? 3 : 0) : 1;
}
