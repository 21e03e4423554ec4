// C03: task manager and parallel task runner: every bounded schedule of starting, posting, dropping
// runners and stopping.
#include "task_common.hpp"

using namespace probe;

namespace {

void add(std::string const &name, int quick, int thorough, std::function<void()> body, int policies = 2)
{
    mc::Opt o;
    o.quick = quick;
    o.thorough = thorough;
    o.policies = policies;
    mc::program(name, o, std::move(body));
}

struct World
{
    Probe p;
    std::shared_ptr<TaskManager> manager;
    Sequence seq;
    mc::Log runs;                         // start and end of tasks, for what happens around stop()
    int inside {0};
    bool stopped {false};
    std::function<void(int)> extra;

    explicit World(std::uint32_t workers)
    {
        manager = TaskManager::create(workers);
        mc::check(manager != nullptr, "create", "the task manager was not created");
    }

    template <class R>
    bool post(std::shared_ptr<R> const &r, int id)
    {
        std::size_t const at = p.mark(id);
        std::weak_ptr<R> weak = r;
        bool const ok = r->post_task(FROM_HERE, [this, id, weak]() {
            mc::check(!weak.expired(), "runner gone", "task %d runs although its runner is gone", id);
            {
                mc::Ignore ig;
                mc::check(!stopped, "after stop", "task %d starts after stop() returned", id);
                mc::check(mc::self() != 0, "thread", "task %d does not run on a worker thread", id);
                ++inside;
            }
            enter(p, seq, id, false);
            if (extra) extra(id);
            mc::check(!weak.expired(), "runner gone", "the runner of task %d went away while it was running", id);
            leave(p, seq, id);
            mc::Ignore ig;
            --inside;
        });
        std::size_t const ret = p.mark(300 + id);
        mc::Ignore ig;
        if (ok) seq.posts.push_back({id, at, ret});
        return ok;
    }

    void stop()
    {
        bool const r = manager->stop();
        mc::Ignore ig;
        mc::check(r, "stop", "stopping the running manager reported false");
        mc::check(inside == 0, "running", "a task is still running although stop() returned");
        stopped = true;
    }
    void start()
    {
        {
            mc::Ignore ig;
            stopped = false;
        }
        mc::check(manager->start(), "start", "starting the stopped manager reported false");
        mc::check(!manager->start(), "start twice", "starting the running manager reported true");
    }
    // leave the schedule to run on for a while
    static void idle(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
    // no task ran twice
    void check_once()
    {
        mc::Ignore ig;
        std::map<int, int> n;
        for (auto const &[id, at] : seq.starts) mc::check(++n[id] == 1, "twice", "task %d ran twice (%s)", id, join(seq.starts).c_str());
    }
};

void posters(std::uint32_t workers, std::vector<int> counts)
{
    World w(workers);
    auto runner = ParallelTaskRunner::create(w.manager);
    std::size_t total = 0;
    for (int n : counts) total += static_cast<std::size_t>(n);
    std::vector<std::thread> threads;
    for (std::size_t t = 1; t < counts.size(); ++t)
        threads.emplace_back([&, t] { for (int i = 0; i < counts[t]; ++i) mc::check(w.post(runner, static_cast<int>(t) * 10 + i), "refused", "post refused although the manager runs"); });
    for (int i = 0; i < counts[0]; ++i) mc::check(w.post(runner, i), "refused", "post refused although the manager runs");
    for (auto &t : threads) t.join();
    w.p.done.wait(total, "all posted tasks to run");
    w.stop();
    mc::check(!w.manager->stop(), "stop twice", "stopping the stopped manager reported true");
    check_all(w.seq, false);
}

// capture whose destructor posts
template <class R>
struct Bomb
{
    World *w;
    std::weak_ptr<R> runner;
    int id;
    bool armed {true};
    Bomb(World *w, std::weak_ptr<R> r, int id) : w(w), runner(r), id(id) {}
    ~Bomb() { if (auto r = runner.lock()) w->post(r, id); }
};

} // namespace

void programs()
{
    for (std::uint32_t workers = 1; workers <= 3; ++workers)
    {
        std::string const W = "w" + std::to_string(workers) + "-";
        int const big = workers == 3 ? 1 : 2;
        add(W + "post2", workers == 1 ? 3 : big, 4, [=] { posters(workers, {2}); });
        add(W + "post3", big, 3, [=] { posters(workers, {3}); });
        add(W + "post1+1", big, 3, [=] { posters(workers, {1, 1}); });
        add(W + "post2+1", workers == 1 ? 2 : 1, 3, [=] { posters(workers, {2, 1}); });
        add(W + "nested", big, 3, [=] {
            World w(workers);
            auto runner = ParallelTaskRunner::create(w.manager);
            w.extra = [&](int id) { if (id == 1) { w.post(runner, 2); w.post(runner, 3); } };
            w.post(runner, 1);
            w.p.done.wait(3, "all posted tasks to run");
            w.stop();
            check_all(w.seq, false);
        });
        // every worker can be busy at once: tasks that wait for each other
        if (workers >= 2) add(W + "together", big, 3, [=] {
            World w(workers);
            auto runner = ParallelTaskRunner::create(w.manager);
            mc::Log here;
            w.extra = [&](int) { here.add(1); here.wait(workers, "all workers to be busy at the same time"); };
            for (std::uint32_t i = 0; i < workers; ++i) w.post(runner, static_cast<int>(i));
            w.p.done.wait(workers, "all posted tasks to run");
            w.stop();
            check_all(w.seq, false);
        });
        // the runner goes away while its tasks wait
        for (int keep = 0; keep < 2; ++keep) add(W + (keep ? "drop-blocked" : "drop"), big, 3, [=] {
            World w(workers);
            auto runner = ParallelTaskRunner::create(w.manager), other = ParallelTaskRunner::create(w.manager);
            mc::Log go;
            w.extra = [&](int id) { if (id >= 50) go.wait(1, "the runner to be dropped"); };
            if (keep) for (std::uint32_t i = 0; i < workers; ++i) w.post(other, 50 + static_cast<int>(i));
            if (keep) { mc::block_until([&] { return w.inside == static_cast<int>(workers); }, "all workers to be busy"); }
            w.post(runner, 1);
            w.post(runner, 2);
            runner.reset();
            if (keep) go.add(1);
            w.post(other, 60);
            if (!keep) go.add(1);
            mc::block_until([&] { for (auto const &[id, at] : w.seq.starts) if (id == 60) return true; return false; }, "the task behind the dropped ones");
            w.stop();
            w.check_once();
            mc::Ignore ig;
            if (keep) for (auto const &[id, at] : w.seq.starts) mc::check(id >= 50, "not dropped", "task %d ran although its runner was gone before it could start", id);
        });
        // stop at any moment
        add(W + "stop", workers == 1 ? 3 : big, 3, [=] {
            World w(workers);
            auto runner = ParallelTaskRunner::create(w.manager);
            w.post(runner, 1);
            w.post(runner, 2);
            w.stop();
            std::size_t const n = w.p.done.size();
            mc::check(!w.manager->stop(), "stop twice", "stopping the stopped manager reported true");
            w.post(runner, 3);
            World::idle(30);
            mc::check(w.p.done.size() == n, "after stop", "a task ran after the manager stopped");
            w.check_once();
        });
        add(W + "stop-sequenced", big, 3, [=] {
            World w(workers);
            auto runner = SequencedTaskRunner::create(w.manager);
            w.post(runner, 1);
            w.post(runner, 2);
            runner->post_task_with_delay(FROM_HERE, 5ms, [] {});
            w.stop();
            std::size_t const n = w.p.done.size();
            w.post(runner, 3);
            runner->post_task_with_delay(FROM_HERE, 5ms, [] {});
            World::idle(30);
            mc::check(w.p.done.size() == n, "after stop", "a task ran after the manager stopped");
            w.check_once();
            w.manager.reset();
            mc::check(!runner->post_task(FROM_HERE, [] {}), "gone", "posting to a runner whose manager is gone reported true (the runner is at rest: %d)", 0);
            mc::check(!runner->post_task_with_delay(FROM_HERE, 5ms, [] {}), "gone", "posting with a delay to a runner whose manager is gone reported true");
        });
        // another thread posts while the manager stops
        for (int seq = 0; seq < 2; ++seq) add(W + (seq ? "stop-race-sequenced" : "stop-race"), workers == 1 ? 2 : 1, 3, [=] {
            World w(workers);
            std::shared_ptr<TaskRunner> runner;
            if (seq) runner = SequencedTaskRunner::create(w.manager); else runner = ParallelTaskRunner::create(w.manager);
            std::thread t([&] { w.post(runner, 1); w.post(runner, 2); });
            w.post(runner, 3);
            w.stop();
            t.join();
            w.check_once();
            World::idle(30);
        });
        // a stopped manager can be started again, and goes on with everything posted
        for (int seq = 0; seq < 2; ++seq) add(W + (seq ? "restart-sequenced" : "restart"), workers == 1 ? 3 : big, 3, [=] {
            World w(workers);
            std::shared_ptr<TaskRunner> runner;
            if (seq) runner = SequencedTaskRunner::create(w.manager); else runner = ParallelTaskRunner::create(w.manager);
            w.post(runner, 1);
            w.stop();
            w.post(runner, 2);
            w.start();
            w.post(runner, 3);
            mc::block_until([&] { int n = 0; for (auto const &[id, at] : w.seq.starts) n += id == 3 || id == 2; return n == 2 && w.inside == 0; }, "the tasks posted after the first stop to run");
            w.stop();
            w.check_once();
        });
        // two threads stop the manager: one of them stops it, and only then is everything at rest
        add(W + "stop-twice-at-once", workers == 1 ? 3 : big, 3, [=] {
            World w(workers);
            auto runner = ParallelTaskRunner::create(w.manager);
            w.extra = [&](int) { std::this_thread::sleep_for(7ms); };
            w.post(runner, 1);
            int stopped = 0;
            auto stop = [&] {
                bool const r = w.manager->stop();
                if (!r) return;
                mc::Ignore ig;
                ++stopped;
                w.stopped = true;
                mc::check(w.inside == 0, "running", "a task is still running although stop() returned true");
            };
            std::thread t(stop);
            stop();
            t.join();
            mc::check(stopped == 1, "stop races", "two concurrent calls of stop() reported true %d times", stopped);
            World::idle(30);
            w.check_once();
        });
        // a task that takes its time is waited for, however long it takes
        for (int seq = 0; seq < 2; ++seq) add(W + (seq ? "long-sequenced" : "long"), 1, 2, [=] {
            World w(workers);
            std::shared_ptr<TaskRunner> runner;
            if (seq) runner = SequencedTaskRunner::create(w.manager); else runner = ParallelTaskRunner::create(w.manager);
            w.extra = [&](int id) { std::this_thread::sleep_for(std::chrono::hours(id)); };
            w.post(runner, 1);
            w.post(runner, 30);
            w.stop();
            std::size_t const n = w.p.done.size();
            World::idle(200000000);
            mc::check(w.p.done.size() == n, "after stop", "a task ran after the manager stopped");
            w.check_once();
        });
        // the last reference to the manager goes away after the stop
        add(W + "gone", 1, 2, [=] {
            World w(workers);
            auto parallel = ParallelTaskRunner::create(w.manager);
            auto sequenced = SequencedTaskRunner::create(w.manager);
            w.post(parallel, 1);
            w.post(sequenced, 2);
            w.p.done.wait(2, "the posted tasks to run");
            std::weak_ptr<TaskManager> weak = w.manager;
            w.stop();
            w.manager.reset();
            mc::check(weak.expired(), "manager alive", "something keeps the stopped manager alive");
            mc::check(!w.post(parallel, 3), "gone", "posting to a parallel runner whose manager is gone reported true");
            mc::check(!parallel->post_task_with_delay(FROM_HERE, 1ms, [] {}), "gone", "posting with a delay to a parallel runner whose manager is gone reported true");
            World::idle(30);
            mc::check(w.p.done.size() == 2, "after stop", "a task ran after the manager was gone");
        });
        // dropping a task may itself post
        for (int seq = 0; seq < 2; ++seq) add(W + (seq ? "posting-destructor-sequenced" : "posting-destructor"), big, 3, [=] {
            World w(workers);
            auto runner = ParallelTaskRunner::create(w.manager);
            std::shared_ptr<TaskRunner> dropped;
            if (seq) dropped = SequencedTaskRunner::create(w.manager); else dropped = ParallelTaskRunner::create(w.manager);
            {
                auto bomb = std::make_shared<Bomb<ParallelTaskRunner>>(&w, runner, 7);
                dropped->post_task(FROM_HERE, [bomb = std::move(bomb)] {});
            }
            dropped.reset();
            w.post(runner, 1);
            mc::block_until([&] { int n = 0; for (auto const &[id, at] : w.seq.starts) n += id == 7 || id == 1; return n == 2 && w.inside == 0; }, "the task posted by the destructor of a dropped task to run");
            w.stop();
            w.check_once();
        });
    }
    // no workers: nothing runs, nothing blocks
    add("w0", 3, 4, [] {
        World w(0);
        auto runner = ParallelTaskRunner::create(w.manager);
        w.post(runner, 1);
        World::idle(20);
        w.stop();
        mc::check(w.p.done.size() == 0, "no workers", "a task ran without a worker");
    });
}
