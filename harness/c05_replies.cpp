// C05: replies and owner-bound tasks, plain and delayed, with the owner going away at any moment.
#include "task_common.hpp"

#include <string>

using namespace probe;

namespace {

void add(std::string const &name, int quick, int thorough, std::function<void()> body, int policies = 2)
{
    mc::Opt o;
    o.quick = quick;
    o.thorough = thorough;
    o.policies = policies;
    mc::program(name, o, std::move(body));
}

struct Owner
{
    int *destroyed;
    int magic {4711};
    explicit Owner(int *d) : destroyed(d) {}
    ~Owner() { mc::Ignore ig; ++*destroyed; magic = 0; }
};

struct Result
{
    std::string text;
    std::vector<int> values;
};

struct World
{
    Probe p;
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<TaskRunner> runner;
    Sequence seq;
    bool sequenced;
    int destroyed {0};
    bool task_running {false};
    std::shared_ptr<Owner> owner;
    int ran_task {0}, ran_reply {0};
    bool gone_before_task {false}, gone_before_reply {false};
    std::function<void()> in_task, in_reply;

    World(std::uint32_t workers, bool sq) : sequenced(sq)
    {
        manager = TaskManager::create(workers);
        mc::check(manager != nullptr, "create", "the task manager was not created");
        if (sq) runner = SequencedTaskRunner::create(manager); else runner = ParallelTaskRunner::create(manager);
        owner = std::make_shared<Owner>(&destroyed);
    }

    void check_owner(std::shared_ptr<Owner> const &o, char const *when)
    {
        mc::check(o != nullptr && o->magic == 4711, "owner dead", "the owner is dead %s", when);
        mc::Ignore ig;
        mc::check(destroyed == 0, "owner dead", "the owner was destroyed %s", when);
    }
    void task(std::shared_ptr<Owner> const *o)
    {
        {
            mc::Ignore ig;
            ++ran_task;
            mc::check(ran_task == 1, "twice", "the task ran twice");
            mc::check(!(o && gone_before_task), "owner gone", "the task ran although its owner was gone before it could start");
        }
        if (o) check_owner(*o, "when its task starts");
        enter(p, seq, 1, sequenced);
        if (sequenced) ++seq.shared;
        if (in_task) in_task();
        if (o) check_owner(*o, "while its task runs");
        leave(p, seq, 1);
    }
    void reply(std::shared_ptr<Owner> const *o)
    {
        {
            mc::Ignore ig;
            ++ran_reply;
            mc::check(ran_reply == 1, "reply twice", "the reply ran twice");
            mc::check(ran_task == 1, "reply without task", "the reply ran although the task did not");
            bool finished = false;
            for (auto v : p.log.get()) finished |= v == 201;
            mc::check(finished, "reply early", "the reply ran before the task completed");
            mc::check(!(o && gone_before_reply), "owner gone", "the reply ran although its owner was gone before it could start");
        }
        if (o) check_owner(*o, "when its reply starts");
        enter(p, seq, 2, sequenced);
        if (sequenced) ++seq.shared;
        if (in_reply) in_reply();
        if (o) check_owner(*o, "while its reply runs");
        leave(p, seq, 2);
    }
    void filler(int id, std::function<void()> extra = {})
    {
        mc::check(runner->post_task(FROM_HERE, [this, id, extra] {
            enter(p, seq, id, sequenced);
            if (extra) extra();
            if (sequenced) ++seq.shared;
            leave(p, seq, id);
        }), "refused", "post refused");
    }

    static Result value() { return {"the result of the task which does not fit into a small string", {3, 1, 4, 1, 5}}; }
    static void check_value(Result const &r)
    {
        mc::check(r.text == value().text && r.values == value().values, "value", "the reply got '%s' and %zu values", r.text.c_str(), r.values.size());
    }

    // form: 0 no reply, 1 void with reply, 2 value with reply; bound: to the owner; delay < 0: none
    void post(int form, bool bound, int delay)
    {
        std::chrono::milliseconds const d(delay);
        std::weak_ptr<Owner> weak = owner;
        using P = std::shared_ptr<Owner>;
        bool ok = false;
        if (bound)
        {
            if (form == 0)
            {
                auto t = [this](P o) { task(&o); };
                ok = delay < 0 ? runner->post_task(FROM_HERE, weak, t) : runner->post_task_with_delay(FROM_HERE, weak, d, t);
            }
            else if (form == 1)
            {
                auto t = [this](P o) { task(&o); };
                auto r = [this](P o) { reply(&o); };
                ok = delay < 0 ? runner->post_task_with_reply(FROM_HERE, weak, t, r) : runner->post_task_with_delay_and_reply(FROM_HERE, weak, d, t, r);
            }
            else
            {
                auto t = [this](P o) { task(&o); return value(); };
                auto r = [this](Result v, P o) { check_value(v); reply(&o); };
                ok = delay < 0 ? runner->post_task_with_reply(FROM_HERE, weak, t, r) : runner->post_task_with_delay_and_reply(FROM_HERE, weak, d, t, r);
            }
        }
        else
        {
            if (form == 0)
            {
                auto t = [this] { task(nullptr); };
                ok = delay < 0 ? runner->post_task(FROM_HERE, t) : runner->post_task_with_delay(FROM_HERE, d, t);
            }
            else if (form == 1)
            {
                auto t = [this] { task(nullptr); };
                auto r = [this] { reply(nullptr); };
                ok = delay < 0 ? runner->post_task_with_reply(FROM_HERE, t, r) : runner->post_task_with_delay_and_reply(FROM_HERE, d, t, r);
            }
            else
            {
                auto t = [this] { task(nullptr); return value(); };
                auto r = [this](Result v) { check_value(v); reply(nullptr); };
                ok = delay < 0 ? runner->post_task_with_reply(FROM_HERE, t, r) : runner->post_task_with_delay_and_reply(FROM_HERE, d, t, r);
            }
        }
        mc::check(ok, "refused", "post refused although the manager runs");
    }

    void finish(int want_task, int want_reply)
    {
        // the runner goes on: a last task behind everything
        filler(9);
        if (want_task > 0) mc::block_until([this] { return ran_task > 0; }, "the task to run");
        if (want_reply > 0) mc::block_until([this] { return ran_reply > 0; }, "the reply to run");
        mc::block_until([this] { for (auto const &[id, at] : seq.starts) if (id == 9) return true; return false; }, "a later task of the runner to run");
        std::this_thread::sleep_for(30ms);
        manager->stop();
        mc::Ignore ig;
        mc::check(seq.inside == 0, "running", "a task still runs after stop");
        if (want_task >= 0) mc::check(ran_task == want_task, "task", "the task ran %d times instead of %d", ran_task, want_task);
        if (want_reply >= 0) mc::check(ran_reply == want_reply, "reply", "the reply ran %d times instead of %d", ran_reply, want_reply);
        mc::check(!ran_reply || ran_task, "reply without task", "the reply ran but the task did not");
    }
};

} // namespace

void programs()
{
    bool const T = mc::thorough();
    char const *forms[] = {"plain", "void-reply", "value-reply"};
    for (int workers = 1; workers <= 2; ++workers) for (int sq = 0; sq < 2; ++sq) for (int form = 0; form < 3; ++form) for (int delay : {-1, 5})
    {
        std::string const base = "w" + std::to_string(workers) + (sq ? "-seq-" : "-par-") + forms[form] + (delay < 0 ? "" : "-delayed");
        int const q = T ? 3 : workers == 1 ? 2 : 1;
        std::uint32_t const W = static_cast<std::uint32_t>(workers);
        bool const rep = form > 0;

        add(base + "-unbound", q, 3, [=] {
            World w(W, sq);
            w.post(form, false, delay);
            w.finish(1, rep);
        });
        // the owner lives on
        add(base + "-alive", q, 3, [=] {
            World w(W, sq);
            w.post(form, true, delay);
            w.finish(1, rep);
            mc::check(w.destroyed == 0, "owner dead", "the owner was destroyed although it is still referenced");
            w.owner.reset();
            mc::check(w.destroyed == 1, "owner kept", "something keeps the owner alive after task and reply are done");
        });
        // the owner is gone before the task could start
        add(base + "-gone", q, 3, [=] {
            World w(W, sq);
            mc::Log go;
            for (std::uint32_t i = 0; i < W; ++i) w.filler(20 + static_cast<int>(i), [&go] { go.wait(1, "the owner to go away"); });
            w.post(form, true, delay);
            w.owner.reset();
            {
                mc::Ignore ig;
                if (delay < 0 && !sq) {}
                // with all workers held (or the sequence held) the task cannot have started
                w.gone_before_task = w.gone_before_reply = (w.ran_task == 0 && w.destroyed == 1);
            }
            go.add(1);
            w.finish(-1, -1);
            mc::check(!w.gone_before_task || (w.ran_task == 0 && w.ran_reply == 0), "owner gone", "the task ran %d times and the reply %d times although the owner was gone", w.ran_task, w.ran_reply);
        });
        // the owner goes away at any moment, from another thread
        add(base + "-races", q, 3, [=] {
            World w(W, sq);
            std::thread t([&w] { std::shared_ptr<Owner> o = std::move(w.owner); mc::visible(&w, "owner dropped"); o.reset(); });
            // the post takes its weak reference before the drop
            t.join();
            w.owner = std::make_shared<Owner>(&w.destroyed);
            { mc::Ignore ig; w.destroyed = 0; }
            w.post(form, true, delay);
            std::thread u([&w] { w.owner.reset(); });
            u.join();
            w.finish(-1, -1);
            mc::check(w.destroyed == 1, "owner kept", "something keeps the owner alive after task and reply are done or dropped");
        });
        if (rep)
        {
            // the owner goes away while the task runs: it survives the task, and the reply is dropped
            add(base + "-between", q, 3, [=] {
                World w(W, sq);
                w.in_task = [&] { w.owner.reset(); mc::check(w.destroyed == 0, "owner dead", "the owner died while its task was running"); };
                w.post(form, true, delay);
                w.finish(1, sq || workers == 1 ? 0 : -1);
                mc::check(w.destroyed == 1, "owner kept", "something keeps the owner alive");
            });
            // the reply runs on the same sequence: behind what was posted before the task completed
            if (sq) add(base + "-order", q, 3, [=] {
                World w(W, sq);
                w.in_task = [&] { w.filler(30); w.filler(31); };
                w.post(form, false, delay);
                w.finish(1, 1);
                mc::Ignore ig;
                std::map<int, std::size_t> pos;
                for (std::size_t i = 0; i < w.seq.starts.size(); ++i) pos[w.seq.starts[i].first] = i;
                mc::check(pos[1] < pos[30] && pos[30] < pos[31] && pos[31] < pos[2], "order", "the reply did not run behind the tasks posted earlier to its sequence (%s)", join(w.seq.starts).c_str());
            });
            // the runner goes away while the task runs
            add(base + "-runner-gone", q, 3, [=] {
                World w(W, sq);
                auto other = ParallelTaskRunner::create(w.manager);
                w.in_task = [&] { w.runner.reset(); };
                w.post(form, false, delay);
                mc::block_until([&] { return w.ran_task > 0 && w.seq.inside == 0; }, "the task to run");
                std::this_thread::sleep_for(30ms);
                w.manager->stop();
                mc::check(w.ran_reply <= 1, "reply twice", "the reply ran twice");
            });
        }
    }
}
