// C02: sequenced task runner: every bounded schedule of small programs on the real task system.
#include "task_common.hpp"

using namespace probe;

namespace {

struct World
{
    Probe p;
    std::shared_ptr<TaskManager> manager;
    std::vector<std::shared_ptr<SequencedTaskRunner>> runners;
    std::vector<Sequence> seq;
    std::function<void(int, int)> extra;   // what a task does besides (sequence, id)

    World(std::uint32_t workers, std::size_t sequences) : seq(sequences)
    {
        manager = TaskManager::create(workers);
        mc::check(manager != nullptr, "create", "the task manager was not created");
        for (std::size_t i = 0; i < sequences; ++i) runners.push_back(SequencedTaskRunner::create(manager));
    }

    void post(int s, int id)
    {
        std::size_t const at = p.mark(id);
        auto &q = seq[static_cast<std::size_t>(s)];
        bool const ok = runners[static_cast<std::size_t>(s)]->post_task(FROM_HERE, [this, s, id]() {
            auto &q = seq[static_cast<std::size_t>(s)];
            enter(p, q, id);
            ++q.shared;
            if (extra) extra(s, id);
            leave(p, q, id);
        });
        mc::check(ok, "refused", "posting task %d was refused although the manager runs", id);
        std::size_t const ret = p.mark(300 + id);
        mc::Ignore ig;
        q.posts.push_back({id, at, ret});
    }

    void finish(std::size_t tasks)
    {
        p.done.wait(tasks, "all posted tasks to run");
        mc::check(manager->stop(), "stop", "stopping the running manager reported false");
        long total = 0;
        for (auto &q : seq)
        {
            check_all(q);
            total += q.shared;
        }
        mc::check(total == static_cast<long>(tasks), "lost update", "the tasks together counted to %ld instead of %zu", total, tasks);
    }
};

void add(std::string const &name, int quick, int thorough, std::function<void()> body, int policies = 2)
{
    // the widest programs with three workers, and the longest with two, are left to the thorough tier
    if (name[1] == '3') quick = 1;
    if (name[1] == '2') for (char const *n : {"post4", "post2+2", "nested0", "nested2", "post1+1+1", "cross", "pingpong"}) if (name == std::string("w2-") + n) quick = 1;
    mc::Opt o;
    o.quick = quick;
    o.thorough = thorough;
    o.policies = policies;
    mc::program(name, o, std::move(body));
}

// posters[0] is what the main thread posts, the others are further threads
void posters(std::uint32_t workers, std::vector<int> counts)
{
    World w(workers, 1);
    std::size_t total = 0;
    std::vector<std::thread> threads;
    for (std::size_t t = 1; t < counts.size(); ++t)
    {
        threads.emplace_back([&w, t, n = counts[t]] { for (int i = 0; i < n; ++i) w.post(0, static_cast<int>(t) * 10 + i); });
    }
    for (int i = 0; i < counts[0]; ++i) w.post(0, i);
    for (int n : counts) total += static_cast<std::size_t>(n);
    for (auto &t : threads) t.join();
    w.finish(total);
}

} // namespace

void programs()
{
    for (std::uint32_t workers = 1; workers <= 3; ++workers)
    {
        std::string const W = "w" + std::to_string(workers) + "-";
        int const q = workers == 1 ? 3 : 2;
        add(W + "post2", q, 4, [=] { posters(workers, {2}); });
        add(W + "post3", q, 3, [=] { posters(workers, {3}); });
        add(W + "post4", 2, 3, [=] { posters(workers, {4}); });
        add(W + "post1+1", q, 3, [=] { posters(workers, {1, 1}); });
        add(W + "post2+1", 2, 3, [=] { posters(workers, {2, 1}); });
        add(W + "post2+2", 2, 3, [=] { posters(workers, {2, 2}); });
        if (workers <= 2) add(W + "post1+1+1", 2, 3, [=] { posters(workers, {1, 1, 1}); });

        // tasks post to their own sequence while others post from outside
        for (int outside = 0; outside <= 2; ++outside)
        {
            add(W + "nested" + std::to_string(outside), 2, 3, [=] {
                World w(workers, 1);
                w.extra = [&w](int, int id) { if (id == 1) { w.post(0, 50); w.post(0, 51); } if (id == 50) w.post(0, 60); };
                w.post(0, 1);
                for (int i = 0; i < outside; ++i) w.post(0, 2 + i);
                w.finish(static_cast<std::size_t>(4 + outside));
            });
        }
        // posting never waits for the running task: the first task only ends after the others were posted
        add(W + "held", 2, 3, [=] {
            World w(workers, 1);
            mc::Log go;
            w.extra = [&go](int, int id) { if (id == 1) go.wait(1, "the other posts to return"); };
            w.post(0, 1);
            w.post(0, 2);
            w.post(0, 3);
            go.add(1);
            w.finish(3);
        });
        // two sequences share the workers
        add(W + "two", 2, 3, [=] {
            World w(workers, 2);
            w.post(0, 1);
            w.post(1, 11);
            w.post(0, 2);
            w.post(1, 12);
            w.finish(4);
        });
        if (workers >= 2)
        {
            // a task of one sequence may wait for a task of another one
            add(W + "cross", 2, 3, [=] {
                World w(workers, 2);
                mc::Log other;
                w.extra = [&other](int s, int id) { if (s == 1 && id == 12) other.add(1); if (s == 0) other.wait(1, "the other sequence to get on"); };
                w.post(0, 1);
                w.post(1, 11);
                w.post(1, 12);
                w.post(0, 2);
                w.finish(4);
            });
        }
        // the sequence comes to rest and starts again
        add(W + "rest", 2, 3, [=] {
            World w(workers, 1);
            w.post(0, 1);
            w.p.done.wait(1, "the first task to run");
            w.post(0, 2);
            w.post(0, 3);
            w.finish(3);
        });
        // a poster goes away while a posted task keeps the rest busy; ping-pong between two sequences
        add(W + "pingpong", 2, 3, [=] {
            World w(workers, 2);
            w.extra = [&w](int s, int id) { if (id % 10 < 2) w.post(1 - s, (1 - s) * 10 + id % 10 + 1); };
            w.post(0, 0);
            w.post(1, 10);
            w.finish(6);
        });
    }
}
