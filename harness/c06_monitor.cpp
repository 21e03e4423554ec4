// C06: the path monitor over a virtual inotify: all sequences of registrations, removals, file system
// changes and waits up to a depth, and all bounded schedules of client calls against the polling task.
#include "fly/path/path_config.hpp"
#include "fly/path/path_monitor.hpp"
#include "task_common.hpp"
#include "vos.hpp"

#include <filesystem>
#include <optional>

using fly::path::PathConfig;
using fly::path::PathEvent;
using fly::path::PathMonitor;
using vos::Change;
namespace fs = std::filesystem;

namespace {

void add(std::string const &name, int quick, int thorough, std::function<void()> body, int policies = 2)
{
    mc::Opt o;
    o.quick = quick;
    o.thorough = thorough;
    o.policies = policies;
    o.max_idle = 1000;
    mc::program(name, o, std::move(body));
}

struct Interval final : public PathConfig
{
    std::chrono::milliseconds poll_interval() const override { return 50ms; }
};

constexpr long NEVER = 1L << 60;

struct Slot   // one registered callback
{
    int monitor;
    std::string dir, file;             // file empty: the directory's callback
    long add_call {0}, add_ret {NEVER};
    long end_call {NEVER}, end_ret {NEVER};
    long blind {NEVER};                // the watch was lost for reasons outside of the monitor
    bool replaced {false};
};
struct Invocation { int slot; std::string path; PathEvent event; long at; };
struct Done { std::string dir, file; PathEvent event; long at; long settled {NEVER}; std::map<int, bool> coalesced; };

struct Monitor { std::shared_ptr<PathMonitor> p; int instance {-1}; };

struct World
{
    long tick {0};
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<SequencedTaskRunner> runner;
    std::shared_ptr<PathConfig> config {std::make_shared<Interval>()};
    std::vector<Monitor> monitors;
    std::vector<Slot> slots;
    std::vector<Invocation> calls;
    std::vector<Done> done;
    std::string history;
    int running {0};

    explicit World(std::uint32_t workers = 1)
    {
        vos::make_dir("/vfs");
        vos::make_dir("/vfs/d1");
        vos::make_dir("/vfs/d2");
        manager = TaskManager::create(workers);
        runner = SequencedTaskRunner::create(manager);
    }
    int create(std::shared_ptr<SequencedTaskRunner> r = nullptr)
    {
        auto p = PathMonitor::create(r ? r : runner, config);
        mc::Ignore ig;
        mc::check(p != nullptr, "create", "the monitor was not created");
        monitors.push_back({p, vos::world().instances - 1});
        return static_cast<int>(monitors.size()) - 1;
    }
    long now() { mc::Ignore ig; return ++tick; }
    void say(std::string const &s) { mc::Ignore ig; history += (history.empty() ? "" : ", ") + s; }
    static std::string norm(std::string const &p) { return vos::canonical(p.c_str()); }

    // the slot of the last successful registration
    std::vector<int> live(int m, std::string const &dir, std::optional<std::string> const &file = std::nullopt)
    {
        std::vector<int> out;
        for (std::size_t i = 0; i < slots.size(); ++i)
        {
            auto const &s = slots[i];
            if (s.monitor == m && s.dir == dir && s.end_call == NEVER && s.add_ret != NEVER && (!file || s.file == *file)) out.push_back(static_cast<int>(i));
        }
        return out;
    }

    // register a callback for a directory or a file; exact: the outcome must be success
    bool reg(int m, std::string const &path, bool is_file, bool expect = true)
    {
        int index;
        std::string dir = is_file ? vos::parent(norm(path)) : norm(path), file = is_file ? vos::base(path) : "";
        std::vector<int> before;
        {
            mc::Ignore ig;
            before = live(m, dir, file);
            Slot s;
            s.monitor = m;
            s.dir = dir;
            s.file = file;
            s.add_call = ++tick;
            index = static_cast<int>(slots.size());
            slots.push_back(s);
            for (int b : before) slots[static_cast<std::size_t>(b)].end_call = tick;
        }
        auto callback = [this, index](fs::path p, PathEvent e) {
            mc::visible(&running, "callback");
            mc::Ignore ig;
            calls.push_back({index, p.string(), e, ++tick});
            auto const &s = slots[static_cast<std::size_t>(index)];
            mc::check(s.end_ret == NEVER || s.end_ret > tick, "after removal", "the callback for %s was called with %s after its %s had returned (%s)", name(s).c_str(), p.c_str(), s.replaced ? "replacement" : "removal", history.c_str());
        };
        bool const ok = is_file ? monitors[static_cast<std::size_t>(m)].p->add_file(path, callback) : monitors[static_cast<std::size_t>(m)].p->add_path(path, callback);
        mc::Ignore ig;
        ++tick;
        history += (history.empty() ? "" : ", ") + std::string(is_file ? "add_file " : "add_path ") + path + (ok ? "" : " (refused)");
        if (ok) slots[static_cast<std::size_t>(index)].add_ret = tick;
        else slots[static_cast<std::size_t>(index)].end_call = slots[static_cast<std::size_t>(index)].end_ret = tick;
        for (int b : before)
        {
            auto &s = slots[static_cast<std::size_t>(b)];
            if (ok) { s.end_ret = tick; s.replaced = true; }
            else s.end_call = NEVER;
        }
        mc::check(ok == expect, "result", "registering %s %s (%s)", path.c_str(), ok ? "succeeded but should have been refused" : "failed", history.c_str());
        return ok;
    }
    static std::string name(Slot const &s) { return s.file.empty() ? "directory " + s.dir : "file " + s.dir + "/" + s.file; }

    enum Removal { Path, File, All, Destroy };
    void unreg(int m, std::string const &path, Removal what, bool exact = true)
    {
        std::vector<int> gone;
        std::string const dir = what == File ? vos::parent(norm(path)) : norm(path);
        {
            mc::Ignore ig;
            ++tick;
            for (std::size_t i = 0; i < slots.size(); ++i)
            {
                auto &s = slots[i];
                if (s.monitor != m || s.end_call != NEVER || s.add_ret == NEVER) continue;
                if (what == Path && s.dir != dir) continue;
                if (what == File && (s.dir != dir || s.file != vos::base(path))) continue;
                s.end_call = tick;
                gone.push_back(static_cast<int>(i));
            }
        }
        bool ok = true;
        auto &mon = monitors[static_cast<std::size_t>(m)];
        if (what == Path) ok = mon.p->remove_path(path);
        else if (what == File) ok = mon.p->remove_file(path);
        else if (what == All) mon.p->remove_all_paths();
        else mon.p.reset();
        mc::Ignore ig;
        ++tick;
        static char const *names[] = {"remove_path ", "remove_file ", "remove_all", "destroy"};
        history += (history.empty() ? "" : ", ") + std::string(names[what]) + path;
        if (what != Destroy) for (int g : gone) slots[static_cast<std::size_t>(g)].end_ret = tick;
        if (exact && (what == Path || what == File)) mc::check(ok == !gone.empty(), "result", "removing %s reports %s (%s)", path.c_str(), ok ? "success although it was not registered" : "failure although it was registered", history.c_str());
    }

    void change(std::string const &path, Change c)
    {
        static PathEvent const kinds[] = {PathEvent::Created, PathEvent::Changed, PathEvent::Deleted, PathEvent::Created, PathEvent::Deleted};
        static char const *names[] = {"create ", "modify ", "delete ", "move in ", "move out "};
        mc::visible(&vos::world(), "change");
        mc::Ignore ig;
        Done d;
        d.dir = vos::parent(path);
        d.file = vos::base(path);
        d.event = kinds[static_cast<int>(c)];
        d.at = ++tick;
        for (auto const &e : vos::change(path, c)) d.coalesced[e.instance] = e.coalesced;
        done.push_back(d);
        history += (history.empty() ? "" : ", ") + std::string(names[static_cast<int>(c)]) + path;
    }
    void rmdir(std::string const &dir)
    {
        vos::remove_dir(dir);
        mc::Ignore ig;
        ++tick;
        for (auto &s : slots) if (s.dir == dir && s.blind == NEVER) s.blind = tick;
        history += (history.empty() ? "" : ", ") + std::string("rmdir ") + dir;
    }
    void settle()
    {
        vos::settle();
        mc::Ignore ig;
        ++tick;
        for (auto &d : done) if (d.settled == NEVER) d.settled = tick;
        history += (history.empty() ? "" : ", ") + std::string("settle");
    }

    bool covered(int m, Done const &d, long t) const
    {
        for (auto const &s : slots)
            if (s.monitor == m && s.dir == d.dir && (s.file.empty() || s.file == d.file) && s.add_ret <= t && t < (s.replaced ? s.end_ret : s.end_call) && t < s.blind) return true;
        return false;
    }
    // is it in order that the monitor reported nothing for this change?
    bool skippable(int m, Done const &d) const
    {
        auto const c = d.coalesced.find(monitors[static_cast<std::size_t>(m)].instance);
        if (c != d.coalesced.end() && c->second) return true;
        for (long t = d.at; t <= std::min(d.settled, tick); ++t) if (!covered(m, d, t)) return true;
        return d.settled == NEVER;
    }
    char const *match(Invocation const &v, Done const &d) const
    {
        auto const &s = slots[static_cast<std::size_t>(v.slot)];
        if (norm(v.path) != d.dir + "/" + d.file || v.event != d.event || v.at <= d.at) return "no such change";
        if (s.dir != d.dir || (!s.file.empty() && s.file != d.file)) return "called for a change it is not registered for";
        if (s.file.empty())
        {
            for (auto const &o : slots)
                if (o.monitor == s.monitor && o.dir == s.dir && o.file == d.file && o.add_ret <= v.at && v.at < o.end_call && v.at < o.blind) return "called although the file has its own callback";
        }
        return nullptr;
    }
    bool solve(int m, std::vector<Invocation const *> const &inv, std::size_t i, std::size_t j, std::set<std::pair<std::size_t, std::size_t>> &dead) const
    {
        if (i == inv.size() && j == done.size()) return true;
        if (dead.count({i, j})) return false;
        if (j < done.size() && i < inv.size() && match(*inv[i], done[j]) == nullptr && solve(m, inv, i + 1, j + 1, dead)) return true;
        if (j < done.size() && skippable(m, done[j]) && solve(m, inv, i, j + 1, dead)) return true;
        dead.insert({i, j});
        return false;
    }
    static char const *kind(PathEvent e) { return e == PathEvent::Created ? "Created" : e == PathEvent::Deleted ? "Deleted" : e == PathEvent::Changed ? "Changed" : "None"; }

    void check()
    {
        mc::Ignore ig;
        for (std::size_t m = 0; m < monitors.size(); ++m)
        {
            std::vector<Invocation const *> inv;
            for (auto const &c : calls) if (slots[static_cast<std::size_t>(c.slot)].monitor == static_cast<int>(m)) inv.push_back(&c);
            std::set<std::pair<std::size_t, std::size_t>> dead;
            if (!solve(static_cast<int>(m), inv, 0, 0, dead))
            {
                std::string text;
                for (auto *v : inv) text += (text.empty() ? "" : ", ") + std::string(kind(v->event)) + " " + v->path + " to the callback of " + name(slots[static_cast<std::size_t>(v->slot)]);
                mc::fail("delivery", "after [%s] the callbacks were called so: [%s]", history.c_str(), text.c_str());
            }
        }
    }
    // with nothing going on, exactly the directories with registrations are watched
    void check_watches()
    {
        mc::Ignore ig;
        for (std::size_t m = 0; m < monitors.size(); ++m)
        {
            if (!monitors[m].p) continue;
            std::set<std::string> want;
            for (auto const &s : slots) if (s.monitor == static_cast<int>(m) && s.add_ret != NEVER && s.end_call == NEVER && s.blind == NEVER) want.insert(s.dir);
            auto const have = vos::watched(monitors[m].instance);
            std::string a, b;
            for (auto const &x : want) a += " " + x;
            for (auto const &x : have) b += " " + x;
            mc::check(want == have, "watches", "after [%s] the kernel watches [%s ] for the monitor instead of [%s ]", history.c_str(), b.c_str(), a.c_str());
        }
    }
    void finish()
    {
        settle();
        check();
        check_watches();
        for (std::size_t m = 0; m < monitors.size(); ++m) if (monitors[m].p) unreg(static_cast<int>(m), "", Destroy);
        mc::check(manager->stop(), "stop", "stop reported false");
        runner.reset();
        manager.reset();
        mc::Ignore ig;
        check();
        mc::check(vos::world().fds.empty(), "descriptor kept", "after everything is gone %zu inotify descriptors are still open", vos::world().fds.size());
    }
};

// the next of a few kinds of changes of a file
Change next_change(int n)
{
    static Change const kinds[] = {Change::Create, Change::Modify, Change::Modify, Change::MoveOut, Change::MoveIn, Change::Delete};
    return kinds[n % 6];
}

} // namespace

void programs()
{
    bool const T = mc::thorough();
    std::string const d1 = "/vfs/d1", d2 = "/vfs/d2", f = "/vfs/d1/f", g = "/vfs/d1/g", f2 = "/vfs/d2/f";

    // every sequence of operations on one directory with two files
    for (int first = 0; first < 3; ++first)
    {
        add("one-directory-" + std::to_string(first), 0, 0, [=] {
            World w;
            int const m = w.create();
            if (first == 0) w.reg(m, d1, false);
            else if (first == 1) w.reg(m, f, true);
            else { w.reg(m, f, true); w.reg(m, g, true); }
            int changes = first;
            for (int i = 0; i < (T ? 5 : first == 1 ? 4 : 3); ++i)
            {
                switch (mc::choose(10, "operation"))
                {
                    case 0: w.reg(m, d1, false); break;
                    case 1: w.reg(m, f, true); break;
                    case 2: w.reg(m, g, true); break;
                    case 3: w.unreg(m, d1, World::Path); break;
                    case 4: w.unreg(m, f, World::File); break;
                    case 5: w.unreg(m, g, World::File); break;
                    case 6: w.unreg(m, "", World::All); break;
                    case 7: w.change(f, next_change(changes++)); break;
                    case 8: w.change(g, next_change(changes++)); break;
                    default: w.settle(); break;
                }
            }
            w.change(f, Change::Modify);
            w.change(g, Change::Delete);
            w.finish();
        });
    }
    // two directories, one of them also with a trailing slash
    add("two-directories", 0, 0, [=] {
        World w;
        int const m = w.create();
        for (int i = 0; i < (T ? 4 : 3); ++i)
        {
            switch (mc::choose(12, "operation"))
            {
                case 0: w.reg(m, d1, false); break;
                case 1: w.reg(m, d1 + "/", false); break;
                case 2: w.reg(m, f, true); break;
                case 3: w.reg(m, d2, false); break;
                case 4: w.reg(m, f2, true); break;
                case 5: w.unreg(m, d1, World::Path); break;
                case 6: w.unreg(m, d1 + "/", World::Path); break;
                case 7: w.unreg(m, f, World::File); break;
                case 8: w.unreg(m, d2, World::Path); break;
                case 9: w.unreg(m, "", World::All); break;
                case 10: w.change(f, next_change(i)); break;
                default: w.settle(); break;
            }
        }
        w.change(f, Change::Modify);
        w.change(f2, Change::Create);
        w.change(g, Change::Delete);
        w.finish();
    });
    // how the events are spread over the reads, with registrations changing in between
    for (int variant = 0; variant < 3; ++variant)
    {
        add("batches-" + std::to_string(variant), 0, 1, [=] {
            World w;
            vos::world().choose_batches = true;
            int const m = w.create();
            w.reg(m, f, true);
            if (variant != 1) w.reg(m, d1, false);
            w.reg(m, d2, false);
            w.change(f, Change::Create);
            w.change(g, Change::Create);
            w.change(f2, Change::MoveIn);
            if (variant == 2) w.unreg(m, d2, World::Path);
            w.change(f, Change::Modify);
            w.change(f2, Change::Delete);
            if (variant == 1) w.unreg(m, f, World::File);
            w.change(g, Change::Delete);
            w.finish();
        });
    }
    // more events than fit into one read
    add("many", 0, 0, [=] {
        World w;
        int const m = w.create();
        w.reg(m, d1, false);
        w.reg(m, f, true);
        for (int i = 0; i < 300; ++i) w.change(d1 + "/" + std::string(static_cast<std::size_t>(1 + i % 40), static_cast<char>('a' + i % 26)), Change::Create);
        w.change(f, Change::Modify);
        w.finish();
    });
    // long and odd names
    add("names", 0, 0, [=] {
        World w;
        int const m = w.create();
        w.reg(m, d1, false);
        for (std::size_t n : {1, 14, 15, 16, 17, 31, 32, 33, 254, 255}) { w.change(d1 + "/" + std::string(n, 'x'), Change::Create); w.change(d1 + "/" + std::string(n, 'x'), Change::MoveOut); }
        for (char const *n : {" ", "..x", "\xc3\xa4", "a\nb", "*"})
        {
            std::string const p = d1 + "/" + n;
            w.reg(m, p, true);
            w.change(p, Change::Modify);
            w.change(p + "y", Change::Modify);
        }
        w.finish();
    });
    // things that cannot be registered
    add("refused", 0, 1, [=] {
        World w;
        vos::make_file(g, "x");
        int const m = w.create();
        bool const some = mc::choose(2, "registered before") != 0;
        if (some) w.reg(m, f, true);
        PathMonitor &p = *w.monitors[0].p;
        auto cb = [](fs::path, PathEvent) { mc::fail("refused", "a callback that was refused is called"); };
        switch (mc::choose(8, "case"))
        {
            case 0: mc::check(!p.add_path(d1, nullptr), "result", "a null callback was accepted"); break;
            case 1: mc::check(!p.add_file(f, nullptr), "result", "a null callback was accepted"); break;
            case 2: mc::check(!p.add_path(g, cb), "result", "a file was accepted as a directory"); break;
            case 3: mc::check(!p.add_path("/vfs/none", cb), "result", "a missing directory was accepted"); break;
            case 4: mc::check(!p.add_file(d1, cb), "result", "a directory was accepted as a file"); break;
            case 5: mc::check(!p.add_file("/vfs/none/f", cb), "result", "a file below a missing directory was accepted"); break;
            case 6: mc::check(!p.add_file("/vfs/d1/g/f", cb), "result", "a file below a file was accepted"); break;
            default:
                vos::world().fail_watch = 1;
                mc::check(!p.add_file(f2, cb), "result", "add_file reports success although the kernel refused the watch");
                vos::world().fail_watch = 1;
                mc::check(!p.add_path(d2, cb), "result", "add_path reports success although the kernel refused the watch");
                break;
        }
        for (std::string const &x : {f, g, f2}) w.change(x, Change::Modify);
        w.settle();
        w.reg(m, d1, false);
        w.reg(m, f2, true);
        for (std::string const &x : {f, g, f2}) w.change(x, Change::Delete);
        w.finish();
    });
    add("no-inotify", 1, 1, [=] {
        World w;
        vos::world().fail_init = true;
        mc::check(PathMonitor::create(w.runner, w.config) == nullptr, "create", "a monitor was created although the kernel refused it");
        vos::world().fail_init = false;
        int const m = w.create();
        w.reg(m, f, true);
        w.change(f, Change::Create);
        w.finish();
    });
    // interrupted system calls
    add("interrupted", 1, 2, [=] {
        World w;
        vos::world().interrupts = 2;
        int const m = w.create();
        w.reg(m, d1, false);
        w.change(f, Change::Create);
        w.settle();
        w.change(g, Change::Create);
        w.change(f, Change::Delete);
        w.finish();
    });
    // directories which go away and come back
    for (int variant = 0; variant < 3; ++variant)
    {
        add("directory-returns-" + std::to_string(variant), 0, 1, [=] {
            World w;
            int const m = w.create();
            if (variant != 1) w.reg(m, d1, false);
            if (variant != 0) w.reg(m, f, true);
            w.reg(m, d2, false);
            w.change(f, Change::Create);
            w.rmdir(d1);
            w.settle();
            int const back = mc::choose(3, "before it comes back");
            if (back == 1) w.unreg(m, d1, World::Path, false);
            if (back == 2) { w.reg(m, d1, false, false); w.reg(m, f, true, false); }
            vos::create_dir(d1);
            w.change(f, Change::Create);
            w.settle();
            w.reg(m, d1, false);
            w.reg(m, g, true);
            w.change(g, Change::Create);
            w.change(f, Change::Modify);
            w.change(f2, Change::Create);
            w.finish();
        });
    }
    // two monitors
    for (int variant = 0; variant < 2; ++variant)
    {
        add("two-monitors-" + std::to_string(variant), 0, 0, [=] {
            World w(variant == 0 ? 2 : 1);
            int const a = w.create();
            auto other = variant == 0 ? SequencedTaskRunner::create(w.manager) : w.runner;
            int const b = w.create(other);
            w.reg(a, d1, false);
            for (int i = 0; i < (T ? 4 : 3); ++i)
            {
                switch (mc::choose(8, "operation"))
                {
                    case 0: w.reg(b, d1, false); break;
                    case 1: w.reg(b, f, true); break;
                    case 2: w.unreg(a, d1, World::Path); break;
                    case 3: w.unreg(b, d1, World::Path); break;
                    case 4: w.change(f, next_change(i)); break;
                    case 5: w.reg(a, f, true); break;
                    case 6: w.unreg(b, f, World::File); break;
                    default: w.settle(); break;
                }
            }
            w.change(f, Change::Modify);
            w.change(g, Change::Modify);
            w.finish();
            other.reset();
        });
        add("monitor-goes-" + std::to_string(variant), 1, 2, [=] {
            World w(variant == 0 ? 2 : 1);
            int const a = w.create();
            w.reg(a, d2, false);
            w.reg(a, d1, false);
            w.unreg(a, "", World::Destroy);
            if (mc::choose(2, "wait until it is closed") == 1) mc::block_until([] { return !vos::is_open(0); }, "the descriptor to be closed");
            int const b = w.create(variant == 0 ? SequencedTaskRunner::create(w.manager) : w.runner);
            w.reg(b, d1, false);
            w.change(f, Change::Create);
            w.settle();
            std::this_thread::sleep_for(200ms);
            w.reg(b, d2, false);
            w.change(g, Change::Create);
            w.change(f2, Change::Create);
            w.finish();
        });
    }
    // client calls racing with the polling task and with each other
    struct Race { char const *name; std::vector<std::pair<int, std::string>> before, one, two; };
    enum { AP, AF, RP, RF, RA, CH, ST };
    std::vector<Race> const races {
        {"remove-file", {{AF, f}}, {{RF, f}}, {{CH, f}, {CH, f}}},
        {"remove-file-keep-path", {{AF, f}, {AP, d1}}, {{RF, f}}, {{CH, f}, {CH, g}}},
        {"remove-path", {{AP, d1}}, {{RP, d1}}, {{CH, f}, {CH, g}}},
        {"remove-all", {{AP, d1}, {AF, f2}}, {{RA, ""}}, {{CH, f}, {CH, f2}}},
        {"replace", {{AF, f}}, {{AF, f}}, {{CH, f}, {CH, f}}},
        {"take-over", {{AP, d1}}, {{AF, f}}, {{CH, f}, {CH, f}}},
        {"last-file-and-new-file", {{AF, f}}, {{RF, f}, {CH, f}}, {{AF, g}, {CH, g}}},
        {"last-file-and-path", {{AF, f}}, {{RF, f}}, {{AP, d1}, {CH, g}}},
        {"two-removals", {{AF, f}, {AF, g}}, {{RF, f}}, {{RF, g}}},
        {"readd", {{AP, d1}}, {{RP, d1}, {AP, d1}}, {{CH, f}, {CH, g}}},
        {"two-adds", {}, {{AF, f}, {CH, f}}, {{AF, g}, {CH, g}}},
        {"same-add", {}, {{AP, d1}, {CH, f}}, {{AP, d2}, {CH, f2}}},
    };
    for (auto const &r : races)
    {
        add(std::string("race-") + r.name, 2, 3, [r, f, g, f2] {
            World w;
            int const m = w.create();
            auto run = [&](std::vector<std::pair<int, std::string>> const &ops) {
                int n = 0;
                for (auto const &[op, p] : ops)
                {
                    if (op == AP) w.reg(m, p, false);
                    else if (op == AF) w.reg(m, p, true);
                    else if (op == RP) w.unreg(m, p, World::Path, false);
                    else if (op == RF) w.unreg(m, p, World::File, false);
                    else if (op == RA) w.unreg(m, p, World::All);
                    else w.change(p, n++ == 0 ? Change::Create : Change::Delete);
                }
            };
            run(r.before);
            std::thread t([&] { run(r.two); });
            run(r.one);
            t.join();
            w.settle();
            for (std::string const &x : {f, g, f2}) w.change(x, Change::MoveIn);
            w.finish();
        });
    }
    // the manager stops, or the monitor goes, while changes are waiting
    for (int variant = 0; variant < 2; ++variant)
    {
        add("end-" + std::to_string(variant), 2, 3, [=] {
            World w;
            int const m = w.create();
            w.reg(m, d1, false);
            w.change(f, Change::Create);
            w.change(g, Change::Create);
            if (variant == 0) w.unreg(m, "", World::Destroy);
            mc::check(w.manager->stop(), "stop", "stop reported false");
            if (variant == 1) w.unreg(m, "", World::Destroy);
            w.runner.reset();
            w.manager.reset();
            w.check();
            mc::Ignore ig;
            mc::check(vos::world().fds.empty(), "descriptor kept", "after everything is gone %zu inotify descriptors are still open", vos::world().fds.size());
        });
    }
}
