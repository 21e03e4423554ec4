// Controlled scheduler: systematic exploration of the thread interleavings of real code.
//
// The library and the harness are compiled with -fsanitize=thread instrumentation, but instead of the
// ThreadSanitizer run time they are linked with mcsched.cpp, which defines the __tsan_* entry points
// and interposes the pthread, sleep, clock and one-time-initialisation functions.  Exactly one thread
// runs at a time; at every synchronisation operation the scheduler decides who continues.  Time is
// virtual.  The explorer runs a program once per schedule, in a fresh process, and enumerates all
// schedules with at most d deviations from a default scheduler (delay bounding), pruning
// states which are equivalent (same partial order of operations).
#pragma once
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace mc {

struct Opt
{
    int quick {2};            // deviation bound in quick mode (< 0: only in thorough mode)
    int thorough {3};         // deviation bound in thorough mode
    int policies {1};         // number of default schedulers to explore (1: ascending, 2: also descending)
    bool spurious {false};    // explore spurious wake-ups
    int max_idle {300};       // number of idle clock advances before the program counts as not terminating
    bool leak_ok {false};     // threads may still be blocked when the program ends
};

// A named program; its body runs as thread 0 of a fresh process for every schedule.
void program(std::string name, Opt opt, std::function<void()> body);

bool thorough();

[[noreturn]] void fail(char const *key, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
void check(bool ok, char const *key, char const *fmt, ...) __attribute__((format(printf, 3, 4)));
void note(char const *fmt, ...) __attribute__((format(printf, 1, 2)));

// Nondeterministic choice of 0..n-1: explored completely (free), or as a deviation from 0.
int choose(int n, char const *what, bool free = true);

// A schedule point and an operation on an abstract object; creates no happens-before edge.
void visible(void const *object, char const *what, bool write = true);

// Harness bookkeeping inside an Ignore scope is not monitored and has no schedule points.
struct Ignore { Ignore(); ~Ignore(); Ignore(Ignore const &) = delete; };

// Wait until pred() holds (evaluated unmonitored by the scheduler), or until the virtual time.
// Returns pred().
bool block_until(std::function<bool()> pred, char const *what, std::int64_t deadline_ns = -1);

std::int64_t now_ns();
void jump_wall_clock(std::int64_t ns);   // the wall clock changes, the monotonic one does not
int idle_advances();   // how often time passed because no thread could run
int self();            // number of the calling thread
int live_threads();    // threads that have not finished

// Ordered log shared by threads: adding is a schedule point and a release operation.
class Log
{
public:
    Log();
    void add(std::int64_t v);
    // wait until n entries are there (acquires them); fails the program with a "never" violation otherwise
    void wait(std::size_t n, char const *what);
    bool wait_for(std::size_t n, std::int64_t ns);
    std::size_t size() const;
    std::vector<std::int64_t> get() const;   // acquires
    std::string text() const;
    struct Impl;
    Impl *m;
};

// Happens-before edges for harness-level hand over.
void release(void const *object);
void acquire(void const *object);

// Is the address inside a freed heap block?
bool is_freed(void const *p);

} // namespace mc

void programs();   // defined by the harness: registers the programs
