// C30: the system monitor polls virtual counters in virtual time; all sequences of snapshots of each source, with
// failures of every source, are compared with the figures that the two latest good samples define.
#include "fly/config/config.hpp"
#include "fly/system/system_config.hpp"
#include "fly/system/system_monitor.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"
#include "mcsched.hpp"

#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/times.h>
#include <unistd.h>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <optional>
#include <thread>

namespace {

enum class File { Good, Missing, Unreadable };
struct World
{
    File stat_state {File::Good}, status_state {File::Good};
    std::string stat, status;
    bool times_ok {true}, info_ok {true};
    long now {0}, stime {0}, utime {0};
    unsigned long total {0}, free {0};
    unsigned unit {1};
    int polls {0};
};
World &world() { static World w; return w; }

FILE *open_text(File state, std::string const &content)
{
    if (state == File::Missing) { errno = ENOENT; return nullptr; }
    int fd;
    if (state == File::Unreadable) fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, "/", O_RDONLY | O_DIRECTORY));
    else
    {
        fd = static_cast<int>(::syscall(SYS_memfd_create, "c30", 0));
        if (!content.empty() && ::syscall(SYS_write, fd, content.data(), content.size()) != static_cast<long>(content.size())) std::abort();
        ::lseek(fd, 0, SEEK_SET);
    }
    return ::fdopen(fd, "r");
}
FILE *do_fopen(char const *path, char const *mode)
{
    mc::Ignore ig;
    if (std::strcmp(path, "/proc/stat") == 0) return open_text(world().stat_state, world().stat);
    if (std::strcmp(path, "/proc/self/status") == 0) { ++world().polls; return open_text(world().status_state, world().status); }
    int const fd = ::open(path, mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT, 0600);
    return fd < 0 ? nullptr : ::fdopen(fd, mode);
}

} // namespace

extern "C" {
FILE *fopen(char const *path, char const *mode) { return do_fopen(path, mode); }
FILE *fopen64(char const *path, char const *mode) { return do_fopen(path, mode); }
clock_t times(struct tms *t) noexcept
{
    mc::Ignore ig;
    if (!world().times_ok) { errno = EFAULT; return static_cast<clock_t>(-1); }
    std::memset(t, 0, sizeof *t);
    t->tms_stime = world().stime;
    t->tms_utime = world().utime;
    t->tms_cstime = 100000 + world().stime;
    t->tms_cutime = 200000;
    return world().now;
}
int sysinfo(struct sysinfo *i) noexcept
{
    mc::Ignore ig;
    if (!world().info_ok) { errno = EFAULT; return -1; }
    std::memset(i, 0, sizeof *i);
    i->totalram = world().total;
    i->freeram = world().free;
    i->bufferram = 7;
    i->sharedram = 11;
    i->totalswap = 13;
    i->freeswap = 5;
    i->mem_unit = world().unit;
    return 0;
}
}

namespace {

struct Cpu { unsigned long v[4]; };

// What the text of /proc/stat says: number of processors (0: none), and the counters.
struct Stat { char const *name; File state; char const *text; unsigned cpus; bool good; Cpu cpu; };
std::vector<Stat> const &stats()
{
    static std::vector<Stat> const t = {
        {"A", File::Good, "cpu  10 2 8 80 5 6 7 8 9 10\ncpu0 5 1 4 40 0 0 0 0 0 0\ncpu1 5 1 4 40 0 0 0 0 0 0\nintr 5 6 7\n", 2, true, {{10, 2, 8, 80}}},
        {"B", File::Good, "cpu  10 2 8 180 5 6 7 8 9 10\ncpu0 5 1 4 40\n", 1, true, {{10, 2, 8, 180}}},
        {"C", File::Good, "cpu  25 6 9 180 0 0 0 0 0 0\ncpu0 5\ncpu1 5\ncpu2 5\ncpu3 1\nctxt 1\n", 4, true, {{25, 6, 9, 180}}},
        {"D", File::Good, "cpu  30 7 10 170 9 9 9 9 9 9\ncpu0 1\ncpu1 2\ncpu2 2", 3, true, {{30, 7, 10, 170}}},
        {"zero", File::Good, "cpu  0 0 0 0 0 0 0 0 0 0\ncpu0 0 0 0 0\n", 1, true, {{0, 0, 0, 0}}},
        {"large", File::Good, "cpu  1099511627776 6 6000000000 1152921504606846976 0 0\ncpu0 1\ncpu1 1\n", 2, true, {{1099511627776, 6, 6000000000, 1152921504606846976}}},
        {"no processors", File::Good, "cpu  40 9 12 300\n", 0, true, {{40, 9, 12, 300}}},
        {"three numbers", File::Good, "cpu  50 50 50\ncpu0 1\ncpu1 2\n", 2, false, {}},
        {"no numbers", File::Good, "cpu  a b c d\n", 0, false, {}},
        {"other text", File::Good, "intr 1 2 3 4\ncpu0 1 2 3 4\n", 1, false, {}},
        {"empty", File::Good, "", 0, false, {}},
        {"missing", File::Missing, "", 0, false, {}},
        {"unreadable", File::Unreadable, "", 0, false, {}},
    };
    return t;
}
struct Times { bool ok; long now, stime, utime; };
std::vector<Times> const &clocks()
{
    static std::vector<Times> const t = {{true, 1000, 5, 15}, {true, 1200, 10, 40}, {true, 1200, 11, 45}, {true, 1300, 9, 60}, {true, 1400, 20, 39}, {true, 900, 30, 70}, {true, 2000000000000, 40000000000, 900000000000}, {true, 1201, 10, 40}, {false, 0, 0, 0}};
    return t;
}
struct Info { bool ok; unsigned long total, free; unsigned unit; };
std::vector<Info> const &infos()
{
    static std::vector<Info> const t = {{true, 1000, 400, 1}, {true, 1000, 300, 4096}, {true, 1ul << 40, 1ul << 39, 1}, {true, 500, 500, 1024}, {true, 7, 0, 1u << 31}, {false, 0, 0, 0}};
    return t;
}
struct Status { char const *name; File state; char const *text; bool good; unsigned long kb; };
std::vector<Status> const &statuses()
{
    static std::vector<Status> const t = {
        {"usual", File::Good, "Name:\tx\nVmPeak:\t  99999 kB\nVmHWM:\t 88888 kB\nVmRSS:\t   1234 kB\nRssAnon:\t 55 kB\nVmData: 77 kB\n", true, 1234},
        {"first line", File::Good, "VmRSS: 5 kB\nVmRSS2: 6 kB", true, 5},
        {"large", File::Good, "Name: y\nVmRSS:\t4503599627370497 kB\n", true, 4503599627370497},
        {"no such line", File::Good, "Name:\tx\nVmPeak: 9 kB\nVmSize: 10 kB\n", false, 0},
        {"not a number", File::Good, "VmRSS: many kB\n", false, 0},
        {"empty", File::Good, "", false, 0},
        {"missing", File::Missing, "", false, 0},
        {"unreadable", File::Unreadable, "", false, 0},
    };
    return t;
}

struct Model
{
    unsigned cpus {0};
    double system {0}, process {0};
    bool idle {false};            // no tick passed: the share is not defined
    unsigned long total {0}, used {0}, rss {0};
    Cpu prev {{0, 0, 0, 0}};
    long now {0}, stime {0}, utime {0};

    void stat(Stat const &s)
    {
        if (s.cpus > 0) cpus = s.cpus;
        idle = false;
        if (!s.good) return;
        bool forward = true;
        for (int k = 0; k < 4; ++k) forward = forward && s.cpu.v[k] >= prev.v[k];
        if (forward)
        {
            double active = 0, all = 0;
            for (int k = 0; k < 4; ++k) { double const d = static_cast<double>(s.cpu.v[k] - prev.v[k]); all += d; if (k < 3) active += d; }
            if (all > 0) system = 100 * active / all;
            else idle = true;
        }
        prev = s.cpu;
    }
    void times(Times const &t)
    {
        if (!t.ok) return;
        if (t.now > now && t.stime >= stime && t.utime >= utime)
            process = 100.0 * static_cast<double>((t.stime - stime) + (t.utime - utime)) / static_cast<double>(t.now - now) / cpus;
        now = t.now; stime = t.stime; utime = t.utime;
    }
    void info(Info const &i) { if (i.ok) { total = i.total * i.unit; used = (i.total - i.free) * i.unit; } }
    void status(Status const &s) { if (s.good) rss = s.kb * 1024; }
};

bool close(double a, double b) { return std::isfinite(a) && std::fabs(a - b) <= 1e-9 * std::fmax(1.0, std::fabs(b)); }

struct Fixture
{
    std::shared_ptr<fly::task::TaskManager> manager;
    std::shared_ptr<fly::task::SequencedTaskRunner> runner;
    std::shared_ptr<fly::system::SystemMonitor> monitor;
    Model model;
    int seen {0};
    std::string history;

    void set(Stat const &s) { mc::Ignore ig; world().stat_state = s.state; world().stat = s.text; }
    void set(Times const &t) { mc::Ignore ig; world().times_ok = t.ok; world().now = t.now; world().stime = t.stime; world().utime = t.utime; }
    void set(Info const &i) { mc::Ignore ig; world().info_ok = i.ok; world().total = i.total; world().free = i.free; world().unit = i.unit; }
    void set(Status const &s) { mc::Ignore ig; world().status_state = s.state; world().status = s.text; }

    explicit Fixture(Stat const &first)
    {
        set(first); set(clocks()[0]); set(infos()[0]); set(statuses()[0]);
        manager = fly::task::TaskManager::create(1);
        runner = fly::task::SequencedTaskRunner::create(manager);
        auto config = std::make_shared<fly::system::SystemConfig>();
        monitor = fly::system::SystemMonitor::create(runner, config);
        model.cpus = first.cpus;
        history = std::string("started with ") + first.name;
    }
    ~Fixture()
    {
        monitor.reset();
        manager->stop();
    }
    // let the monitor take one sample of the present snapshot
    void sample()
    {
        int const before = seen;
        mc::block_until([before] { return world().polls > before; }, "the next poll");
        std::this_thread::sleep_for(std::chrono::milliseconds(200));
        mc::Ignore ig;
        seen = world().polls;
        mc::check(seen == before + 1, "polls", "%d polls in one interval after %s", seen - before, history.c_str());
    }
    void compare()
    {
        double const s = monitor->get_system_cpu_usage(), p = monitor->get_process_cpu_usage();
        char const *const h = history.c_str();
        mc::check(monitor->get_system_cpu_count() == model.cpus, "cpu-count", "%u processors, expected %u, %s", monitor->get_system_cpu_count(), model.cpus, h);
        mc::check(std::isfinite(s) && s >= 0 && s <= 100, "system-cpu-range", "system usage %g, %s", s, h);
        mc::check(close(s, model.system) || (model.idle && s == 0), "system-cpu", "system usage %.12g, expected %.12g, %s", s, model.system, h);
        if (model.idle) model.system = s;
        mc::check(close(p, model.process), "process-cpu", "process usage %.12g, expected %.12g, %s", p, model.process, h);
        mc::check(monitor->get_total_system_memory() == model.total, "total-memory", "total memory %llu, expected %lu, %s", static_cast<unsigned long long>(monitor->get_total_system_memory()), model.total, h);
        mc::check(monitor->get_system_memory_usage() == model.used, "used-memory", "used memory %llu, expected %lu, %s", static_cast<unsigned long long>(monitor->get_system_memory_usage()), model.used, h);
        mc::check(monitor->get_process_memory_usage() == model.rss, "process-memory", "process memory %llu, expected %lu, %s", static_cast<unsigned long long>(monitor->get_process_memory_usage()), model.rss, h);
    }
};

void history(char const *which, int depth)
{
    bool const s = std::strchr(which, 's'), t = std::strchr(which, 't'), m = std::strchr(which, 'm'), f = std::strchr(which, 'f');
    Fixture x(stats()[0]);
    if (!x.monitor) mc::fail("start", "no monitor");
    x.compare();
    for (int k = 0; k < depth; ++k)
    {
        Stat stat = stats()[0];
        Times time = clocks()[0];
        Info info = infos()[0];
        Status status = statuses()[0];
        if (s) { stat = stats()[static_cast<std::size_t>(mc::choose(static_cast<int>(stats().size()), "stat"))]; x.history += std::string(", ") + stat.name; }
        if (t)
        {
            int const c = mc::choose(static_cast<int>(clocks().size()), "times"), n = mc::choose(2, "processors");
            time = clocks()[static_cast<std::size_t>(c)];
            stat = stats()[n ? 2 : 0];
            x.history += ", times " + std::to_string(c) + (n ? " on 4" : " on 2");
        }
        if (m)
        {
            int const i = mc::choose(static_cast<int>(infos().size()), "sysinfo"), j = mc::choose(static_cast<int>(statuses().size()), "status");
            info = infos()[static_cast<std::size_t>(i)];
            status = statuses()[static_cast<std::size_t>(j)];
            x.history += ", sysinfo " + std::to_string(i) + " status " + status.name;
        }
        if (f)
        {
            int const mask = mc::choose(2, "stat fails") + 2 * mc::choose(2, "times fails") + 4 * mc::choose(2, "sysinfo fails") + 8 * mc::choose(2, "status fails");
            x.history += ", failures " + std::to_string(mask);
            // every source moves on; some of them fail
            static char text[256], rss[64];
            auto const n = static_cast<unsigned long>(k + 2);
            std::snprintf(text, sizeof text, "cpu %lu %lu %lu %lu\ncpu0 1\n%s%s", 10 + 7 * n * n, 2 + n, 8 + n, 80 + 31 * n, n > 1 ? "cpu1 1\n" : "", n > 2 ? "cpu2 1\n" : "");
            std::snprintf(rss, sizeof rss, "VmRSS: %lu kB\n", 1000 * n);
            stat = {"moved", mask & 1 ? File::Missing : File::Good, text, mask & 1 ? 0u : n > 2 ? 3u : 2u, !(mask & 1), {{10 + 7 * n * n, 2 + n, 8 + n, 80 + 31 * n}}};
            auto const l = static_cast<long>(n);
            time = {!(mask & 2), 1000 + 100 * l, 5 + 3 * l * l, 15 + l};
            info = {!(mask & 4), 1000 * n, 100 * n + 1, 2};
            status = {"moved", mask & 8 ? File::Unreadable : File::Good, rss, !(mask & 8), 1000 * n};
        }
        x.set(stat); x.set(time); x.set(info); x.set(status);
        x.sample();
        x.model.stat(stat);
        x.model.times(time);
        x.model.info(info);
        x.model.status(status);
        x.compare();
    }
}

} // namespace

void programs()
{
    mc::Opt o;
    o.quick = 0;
    o.thorough = 0;
    o.max_idle = 2000;
    mc::program("all histories of processor counters", o, [] { history("s", mc::thorough() ? 5 : 4); });
    mc::program("all histories of process times and processor counts", o, [] { history("t", mc::thorough() ? 4 : 3); });
    mc::program("all histories of memory figures", o, [] { history("m", mc::thorough() ? 3 : 2); });
    mc::program("all combinations of failing sources", o, [] { history("f", mc::thorough() ? 4 : 3); });
    mc::program("starting on every snapshot", o, [] {
        Stat const &first = stats()[static_cast<std::size_t>(mc::choose(static_cast<int>(stats().size()), "stat"))];
        Fixture x(first);
        if (first.cpus == 0) { mc::check(x.monitor == nullptr, "start", "a monitor was started without a processor count: %s", first.name); return; }
        mc::check(x.monitor != nullptr, "start", "no monitor was started on %s", first.name);
        x.sample();
        x.model.stat(first); x.model.times(clocks()[0]); x.model.info(infos()[0]); x.model.status(statuses()[0]);
        x.compare();
    });
    o.quick = 1;
    o.thorough = 2;
    mc::program("figures read while they are sampled", o, [] {
        Fixture x(stats()[0]);
        if (!x.monitor) mc::fail("start", "no monitor");
        x.sample();
        x.model.stat(stats()[0]); x.model.times(clocks()[0]); x.model.info(infos()[0]); x.model.status(statuses()[0]);
        x.compare();
        Model const before = x.model;
        x.set(stats()[2]); x.set(clocks()[1]); x.set(infos()[1]);
        x.model.stat(stats()[2]); x.model.times(clocks()[1]); x.model.info(infos()[1]);
        std::this_thread::sleep_for(std::chrono::milliseconds(800));
        double const s = x.monitor->get_system_cpu_usage(), p = x.monitor->get_process_cpu_usage();
        auto const total = x.monitor->get_total_system_memory(), used = x.monitor->get_system_memory_usage();
        mc::check(close(s, before.system) || close(s, x.model.system), "torn", "system usage %g", s);
        mc::check(close(p, before.process) || close(p, x.model.process), "torn", "process usage %g", p);
        mc::check(total == before.total || total == x.model.total, "torn", "total memory");
        mc::check(used == before.used || used == x.model.used, "torn", "used memory");
        x.sample();
        x.compare();
    });
}
