// C04: delayed tasks: every bounded schedule with virtual time; no task runs early, every task runs once.
#include "task_common.hpp"

using namespace probe;

namespace {

void add(std::string const &name, int quick, int thorough, std::function<void()> body, int policies = 2)
{
    mc::Opt o;
    o.quick = quick;
    o.thorough = thorough;
    o.policies = policies;
    mc::program(name, o, std::move(body));
}

struct World
{
    Probe p;
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<SequencedTaskRunner> sequenced;
    std::shared_ptr<ParallelTaskRunner> parallel;
    Sequence seq, par;
    struct When { int delay; std::int64_t posted; };
    std::map<int, When> when;
    std::map<int, int> delay_of;
    std::function<void(int)> extra;
    int late {0};   // if set, tasks due within 20 ms are run within so many milliseconds

    explicit World(std::uint32_t workers)
    {
        manager = TaskManager::create(workers);
        mc::check(manager != nullptr, "create", "the task manager was not created");
        sequenced = SequencedTaskRunner::create(manager);
        parallel = ParallelTaskRunner::create(manager);
    }

    void body(bool sq, int id)
    {
        {
            mc::Ignore ig;
            auto const &w = when.at(id);
            std::int64_t const waited = mc::now_ns() - w.posted;
            mc::check(waited >= static_cast<std::int64_t>(w.delay) * 1000000, "early", "task %d with a delay of %d ms ran after %.3f ms", id, w.delay, static_cast<double>(waited) / 1e6);
            mc::check(late == 0 || w.delay > 20 || waited <= static_cast<std::int64_t>(late) * 1000000, "held back", "task %d with a delay of %d ms ran only after %.3f ms", id, w.delay, static_cast<double>(waited) / 1e6);
        }
        auto &s = sq ? seq : par;
        enter(p, s, id, sq);
        if (sq) ++s.shared;
        if (extra) extra(id);
        leave(p, s, id);
    }

    // delay < 0: posted without a delay
    void post(bool sq, int id, int delay)
    {
        std::size_t const at = p.mark(id);
        {
            mc::Ignore ig;
            when[id] = {std::max(delay, 0), mc::now_ns()};
            delay_of[id] = delay;
        }
        bool ok;
        auto f = [this, sq, id]() { body(sq, id); };
        std::shared_ptr<TaskRunner> r;
        if (sq) r = sequenced; else r = parallel;
        if (delay < 0) ok = r->post_task(FROM_HERE, std::move(f));
        else ok = r->post_task_with_delay(FROM_HERE, std::chrono::milliseconds(delay), std::move(f));
        mc::check(ok, "refused", "posting task %d was refused although the manager runs", id);
        std::size_t const ret = p.mark(300 + id);
        mc::Ignore ig;
        (sq ? seq : par).posts.push_back({id, at, ret});
    }

    void finish(std::size_t tasks)
    {
        p.done.wait(tasks, "all posted tasks to run");
        std::this_thread::sleep_for(25ms);
        mc::check(manager->stop(), "stop", "stopping the running manager reported false");
        check_all(par, false);
        check_all(seq, false);
        // among the delayed tasks of a sequence, one posted earlier and due no later runs earlier
        mc::Ignore ig;
        std::map<int, std::size_t> pos;
        for (std::size_t i = 0; i < seq.starts.size(); ++i) pos[seq.starts[i].first] = i;
        for (auto const &a : seq.posts)
            for (auto const &b : seq.posts)
            {
                bool const da = delay_of[a.id] >= 0, db = delay_of[b.id] >= 0;
                if (a.ret < b.call && ((!da && !db) || (da && db && delay_of[a.id] <= delay_of[b.id])))
                    mc::check(pos[a.id] < pos[b.id], "order", "task %d was posted before task %d and due no later, but ran after it (%s)", a.id, b.id, join(seq.starts).c_str());
            }
    }
};

using Delays = std::vector<int>;

void simple(std::uint32_t workers, bool sq, Delays const &delays)
{
    World w(workers);
    int id = 1;
    for (int d : delays) w.post(sq, id++, d);
    w.finish(delays.size());
}

struct Bomb
{
    World *w;
    int id;
    Bomb(World *w, int id) : w(w), id(id) {}
    ~Bomb() { w->post(false, id, 3); }
};

} // namespace

void programs()
{
    bool const T = mc::thorough();
    std::vector<int> const some {0, 5, 10, 12, 20, 25};
    // every pair of delays
    for (int sq = 0; sq < 2; ++sq)
    {
        std::string const S = sq ? "seq-" : "par-";
        for (int a : some) add("w1-" + S + std::to_string(a), T ? 3 : 2, 3, [=] { simple(1, sq, {a}); });
        for (int a : some) for (int b : some)
        {
            if (!T && (a == 12 || b == 12 || a == 25)) continue;
            add("w1-" + S + std::to_string(a) + "," + std::to_string(b), 1, 2, [=] { simple(1, sq, {a, b}); });
        }
        for (auto const &d : std::vector<Delays> {{5, 5, 5}, {20, 10, 5}, {5, 20, 5}, {0, 10, 0}, {30, 1, 15}, {5, 30, 30, 5}})
        {
            std::string n;
            for (int x : d) n += (n.empty() ? "" : ",") + std::to_string(x);
            add("w1-" + S + n, 1, 2, [=] { simple(1, sq, d); });
            add("w2-" + S + n, 1, 2, [=] { simple(2, sq, d); }, 1);
        }
        // a task which is due is not held back by tasks which are not, however many
        for (auto const &d : std::vector<Delays> {{300, 5}, {300, 300, 300, 300, 5}, {300, 300, 300, 300, 300, 300, 300, 300, 5, 300, 0}, {5, 300, 300, 5, 300, 300, 5}})
        {
            std::string n;
            for (int x : d) n += (n.empty() ? "" : ",") + std::to_string(x);
            add("w1-" + S + "behind-" + n, 1, 1, [=] {
                World w(1);
                w.late = 150;
                int id = 1;
                for (int x : d) w.post(sq, id++, x);
                w.finish(d.size());
            }, 1);
        }
        // with tasks posted without a delay in between
        add("w1-" + S + "mixed", 1, 2, [=] { simple(1, sq, {-1, 5, -1, 0, -1}); });
        add("w2-" + S + "mixed", 1, 2, [=] { simple(2, sq, {5, -1, 0, -1}); });
        // from two threads, while the timer hands tasks out
        for (std::uint32_t workers = 1; workers <= 2; ++workers)
        {
            std::string const W = "w" + std::to_string(workers) + "-";
            add(W + S + "threads", workers == 1 ? 2 : 1, 3, [=] {
                World w(workers);
                std::thread t([&] { w.post(sq, 10, 5); w.post(sq, 11, 0); });
                w.post(sq, 1, 5);
                t.join();
                w.finish(3);
            });
            add(W + S + "later", workers == 1 ? 2 : 1, 3, [=] {
                World w(workers);
                w.post(sq, 1, 10);
                w.post(sq, 2, 10);
                std::this_thread::sleep_for(10ms);
                w.post(sq, 3, 5);
                w.post(sq, 4, 0);
                w.finish(4);
            });
            // a task posts further delayed tasks
            add(W + S + "nested", workers == 1 ? 2 : 1, 3, [=] {
                World w(workers);
                w.extra = [&](int id) { if (id == 1) { w.post(sq, 2, 5); w.post(sq, 3, 0); } if (id == 2) w.post(sq, 4, 10); };
                w.post(sq, 1, 5);
                w.post(sq, 9, 15);
                w.finish(5);
            });
        }
        // repeated posting, as pollers do
        add("w1-" + S + "poll", 1, 2, [=] {
            World w(1);
            w.extra = [&](int id) { if (id < 5) w.post(sq, id + 1, 10); };
            w.post(sq, 1, 0);
            w.finish(5);
        });
        // the wall clock does not matter
        for (int hours : {1, -1}) add("w1-" + S + "wall" + (hours > 0 ? "+" : "-"), 1, 2, [=] {
            World w(1);
            w.post(sq, 1, 20);
            mc::jump_wall_clock(hours * 3600ll * 1000000000ll);
            w.post(sq, 2, 5);
            w.finish(2);
        });
        // a runner goes away before its task is due: dropped; the other tasks are not affected
        add("w1-" + S + "dropped", 2, 3, [=] {
            World w(1);
            std::shared_ptr<TaskRunner> gone;
            if (sq) gone = SequencedTaskRunner::create(w.manager); else gone = ParallelTaskRunner::create(w.manager);
            bool ran = false;
            w.post(sq, 1, 5);
            gone->post_task_with_delay(FROM_HERE, 50ms, [&ran] { ran = true; });
            w.post(sq, 2, 5);
            gone->post_task_with_delay(FROM_HERE, 50ms, [&ran] { ran = true; });
            w.post(sq, 3, 55);
            gone.reset();
            w.finish(3);
            mc::check(!ran, "not dropped", "a delayed task ran although its runner was gone long before it was due");
        });
        // giving up a delayed task may itself post one
        add("w1-" + S + "posting-destructor", 2, 3, [=] {
            World w(1);
            std::shared_ptr<TaskRunner> gone;
            if (sq) gone = SequencedTaskRunner::create(w.manager); else gone = ParallelTaskRunner::create(w.manager);
            {
                auto bomb = std::make_shared<Bomb>(&w, 7);
                gone->post_task_with_delay(FROM_HERE, 5ms, [bomb = std::move(bomb)] {});
            }
            gone.reset();
            w.post(sq, 1, 15);
            w.finish(2);
        });
        // stopping with tasks still waiting, then starting again
        add("w1-" + S + "restart", 1, 2, [=] {
            World w(1);
            w.post(sq, 1, 5);
            w.post(sq, 2, 30);
            w.manager->stop();
            std::this_thread::sleep_for(20ms);
            w.post(sq, 3, 5);
            mc::check(w.manager->start(), "start", "starting the stopped manager reported false");
            w.finish(3);
        });
    }
}
