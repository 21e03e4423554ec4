// C08: loggers: every bounded schedule of threads logging, failing sinks, and the registry of names.
#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"
#include "task_common.hpp"

#include <cmath>
#include <string>

using fly::logger::Level;
using fly::logger::Log;
using fly::logger::Logger;
using fly::logger::LoggerConfig;

namespace {

void add(std::string const &name, int quick, int thorough, std::function<void()> body, int policies = 2)
{
    mc::Opt o;
    o.quick = quick;
    o.thorough = thorough;
    o.policies = policies;
    mc::program(name, o, std::move(body));
}

struct Rec
{
    std::uintmax_t index;
    Level level;
    std::string file, function, message;
    std::uint32_t line;
    double time;
};

// What the sinks of a program saw; outlives them.
struct Seen
{
    std::vector<Rec> recs;
    int inside {0};
    int sinks {0};
    long shared {0};
    int fail_at {-1};
    bool init_ok {true};
    mc::Log log;
};

class TestSink final : public fly::logger::Sink
{
public:
    explicit TestSink(Seen &s) : m_s(s) { mc::Ignore ig; ++m_s.sinks; }
    ~TestSink() override { mc::Ignore ig; mc::check(m_s.inside == 0, "sink destroyed", "the sink is destroyed while it is in use"); --m_s.sinks; }
    bool initialize() override { return m_s.init_ok; }
    bool stream(Log &&l) override
    {
        bool ok;
        {
            mc::Ignore ig;
            mc::check(m_s.inside == 0, "overlap", "the sink is entered while it is busy with another record");
            ++m_s.inside;
            mc::check(m_s.fail_at < 0 || static_cast<int>(m_s.recs.size()) <= m_s.fail_at, "after failure", "record '%s' is handed to the sink although it failed before", l.m_message.c_str());
        }
        mc::visible(&m_s, "sink");
        ++m_s.shared;
        Log mine(std::move(l));
        {
            mc::Ignore ig;
            m_s.recs.push_back({mine.m_index, mine.m_level, std::string(mine.m_trace.m_file), std::string(mine.m_trace.m_function), mine.m_message, mine.m_trace.m_line, mine.m_time});
            ok = static_cast<int>(m_s.recs.size()) - 1 != m_s.fail_at;
            --m_s.inside;
        }
        m_s.log.add(static_cast<std::int64_t>(m_s.recs.size()));
        return ok;
    }

private:
    Seen &m_s;
};

struct Sent { Level level; std::string message; std::uint32_t line; int thread, number; std::int64_t from, to; };

struct World
{
    Seen seen;
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<SequencedTaskRunner> runner;
    std::shared_ptr<LoggerConfig> config;
    std::shared_ptr<Logger> logger;
    std::vector<Sent> sent;
    std::int64_t created {0};

    explicit World(std::uint32_t workers) : config(std::make_shared<LoggerConfig>())
    {
        if (workers > 0)
        {
            manager = TaskManager::create(workers);
            runner = SequencedTaskRunner::create(manager);
        }
    }
    void create(char const *name = "log")
    {
        created = mc::now_ns();
        logger = runner ? Logger::create(name, runner, config, std::make_unique<TestSink>(seen)) : Logger::create(name, config, std::make_unique<TestSink>(seen));
    }
    void say(int thread, int number, std::size_t extra = 0)
    {
        static Level const levels[] = {Level::Debug, Level::Info, Level::Warn, Level::Error};
        Level const level = levels[(thread + number) % 4];
        std::uint32_t const line = static_cast<std::uint32_t>(100 * thread + number);
        std::string text = "t" + std::to_string(thread) + " n" + std::to_string(number) + " " + std::string(extra, static_cast<char>('a' + thread));
        fly::logger::Trace trace {"some/file.cpp", "func", line};
        std::int64_t const from = mc::now_ns();
        switch (level)
        {
            case Level::Debug: logger->debug(std::move(trace), "{}", text); break;
            case Level::Info: logger->info(std::move(trace), "{}", text); break;
            case Level::Warn: logger->warn(std::move(trace), "{}", text); break;
            default: logger->error(std::move(trace), "{}", text); break;
        }
        mc::Ignore ig;
        sent.push_back({level, text, line, thread, number, from, mc::now_ns()});
    }

    // what the sink saw is some of what was sent, complete and unchanged, per thread in order
    void check(bool all)
    {
        mc::Ignore ig;
        std::map<int, int> last;
        std::map<std::uint32_t, int> times;
        std::uintmax_t next = 0;
        std::uint32_t const limit = config->max_message_size();
        for (auto const &r : seen.recs)
        {
            mc::check(r.index == next, "index", "record %zu of the sink has index %zu", static_cast<std::size_t>(next), static_cast<std::size_t>(r.index));
            ++next;
            Sent const *s = nullptr;
            for (auto const &x : sent) if (x.line == r.line) s = &x;
            mc::check(s != nullptr, "unknown", "the sink got a record nobody logged: '%s' line %u", r.message.c_str(), r.line);
            mc::check(++times[r.line] == 1, "twice", "the sink got record '%s' twice", r.message.c_str());
            mc::check(r.message == s->message.substr(0, limit), "message", "message '%s' reached the sink as '%s'", s->message.c_str(), r.message.c_str());
            mc::check(r.level == s->level, "level", "message '%s' of level %d reached the sink with level %d", s->message.c_str(), static_cast<int>(s->level), static_cast<int>(r.level));
            mc::check(r.file == "some/file.cpp" && r.function == "func", "trace", "message '%s' reached the sink with trace '%s' '%s'", s->message.c_str(), r.file.c_str(), r.function.c_str());
            double const lo = static_cast<double>(s->from - created) / 1e6, hi = static_cast<double>(s->to - created) / 1e6;
            mc::check(r.time >= lo - 1e-3 && r.time <= hi + 1e-3, "time", "message '%s' was logged %.3f..%.3f ms after the start but its record says %.3f", s->message.c_str(), lo, hi, r.time);
            if (last.count(s->thread)) mc::check(s->number > last[s->thread], "order", "thread %d logged '%s' earlier, but it reached the sink later", s->thread, s->message.c_str());
            last[s->thread] = s->number;
        }
        if (all) mc::check(seen.recs.size() == sent.size(), "lost", "%zu messages were logged, %zu reached the sink", sent.size(), seen.recs.size());
        mc::check(seen.shared == static_cast<long>(seen.recs.size()), "lost update", "the sink counted to %ld for %zu records", seen.shared, seen.recs.size());
    }
    void stop()
    {
        if (manager) mc::check(manager->stop(), "stop", "stop reported false");
    }
};

} // namespace

void programs()
{
    bool const T = mc::thorough();
    for (std::uint32_t workers = 0; workers <= 2; ++workers)
    {
        std::string const W = workers == 0 ? "sync-" : "async" + std::to_string(workers) + "-";
        int const b = workers == 1 ? 2 : 1;
        for (auto const &counts : std::vector<std::vector<int>> {{1}, {2}, {3}, {1, 1}, {2, 1}, {2, 2}})
        {
            if (workers == 0 && counts.size() > 1) continue;   // synchronous loggers leave locking to their callers
            std::string n;
            int total = 0;
            for (int c : counts) { n += (n.empty() ? "" : "+") + std::to_string(c); total += c; }
            for (int fail = -1; fail < (total > 3 && !T ? 0 : total); ++fail)
            {
                add(W + "log" + n + (fail < 0 ? "" : "-fail" + std::to_string(fail)), fail >= 0 ? 1 : b, 3, [=] {
                    World w(workers);
                    w.seen.fail_at = fail;
                    w.create();
                    mc::check(w.logger != nullptr, "create", "the logger was not created");
                    std::vector<std::thread> threads;
                    for (std::size_t t = 1; t < counts.size(); ++t) threads.emplace_back([&, t] { for (int i = 0; i < counts[t]; ++i) w.say(static_cast<int>(t), i); });
                    for (int i = 0; i < counts[0]; ++i) w.say(0, i);
                    for (auto &t : threads) t.join();
                    std::size_t const expect = fail < 0 ? static_cast<std::size_t>(total) : static_cast<std::size_t>(fail) + 1;
                    w.seen.log.wait(expect, "the logged messages to reach the sink");
                    if (fail >= 0) std::this_thread::sleep_for(25ms);
                    w.say(0, 50);
                    if (fail < 0) w.seen.log.wait(expect + 1, "the last message to reach the sink");
                    std::this_thread::sleep_for(25ms);
                    w.logger.reset();
                    w.stop();
                    w.runner.reset();
                    w.manager.reset();
                    mc::check(w.seen.sinks == 0, "sink kept", "the sink of a dropped logger is still there");
                    w.check(fail < 0);
                    mc::Ignore ig;
                    mc::check(w.seen.recs.size() == (fail < 0 ? expect + 1 : expect), "count", "%zu records reached the sink instead of %zu", w.seen.recs.size(), expect);
                });
            }
        }
        // long messages are cut at the configured size
        add(W + "long", 1, 2, [=] {
            World w(workers);
            w.create();
            for (std::size_t n : {200, 248, 249, 250, 251, 252, 253, 400}) { w.say(0, static_cast<int>(w.sent.size()), n); }
            w.seen.log.wait(8, "the logged messages to reach the sink");
            w.stop();
            w.check(true);
        });
        // the logger goes away with messages still waiting
        if (workers > 0) add(W + "drop", 2, 3, [=] {
            World w(workers);
            w.create();
            w.say(0, 0);
            w.say(0, 1);
            w.logger.reset();
            mc::Log end;
            w.runner->post_task(FROM_HERE, [&] { end.add(1); });
            end.wait(1, "the sequence to go on");
            w.stop();
            mc::check(w.seen.sinks == 0, "sink kept", "the sink of a dropped logger is still there");
            w.check(false);
        });
        // a sink that cannot be initialised: no logger
        add(W + "noinit", 1, 2, [=] {
            World w(workers);
            w.seen.init_ok = false;
            w.create("x");
            mc::check(w.logger == nullptr, "init", "a logger was created although its sink failed to initialise");
            mc::check(w.seen.sinks == 0, "sink kept", "the sink is still there");
            mc::check(Logger::get("x") == nullptr, "lookup", "a logger which was not created is found by name");
            w.seen.init_ok = true;
            w.create("x");
            mc::check(w.logger != nullptr && Logger::get("x") == w.logger, "create", "the name cannot be used after a failure");
            w.stop();
        });
    }

    // names
    auto make = [](World &w, char const *name) { return Logger::create(name, w.config, std::make_unique<TestSink>(w.seen)); };
    add("names", 2, 3, [=] {
        World w(0);
        auto a = make(w, "a");
        mc::check(a && Logger::get("a") == a, "lookup", "a live logger is not found by its name");
        mc::check(a->name() == "a", "name", "the logger reports the name '%s'", a->name().c_str());
        for (int i = 0; i < 2; ++i)
        {
            auto b = make(w, "a");
            mc::check(!b, "duplicate", "a second logger of the same name was created");
            mc::check(Logger::get("a") == a, "lookup", "after refusing a second logger of the same name, the first one is not found any more");
        }
        auto b = make(w, "b");
        mc::check(b && Logger::get("b") == b && Logger::get("a") == a, "lookup", "a live logger is not found by its name");
        a.reset();
        mc::check(!Logger::get("a") && Logger::get("b") == b, "lookup", "looking up names after one logger is gone gives the wrong answers");
        a = make(w, "a");
        mc::check(a && Logger::get("a") == a && Logger::get("b") == b, "lookup", "the name of a gone logger cannot be used again");
        mc::check(!Logger::get("c"), "lookup", "an unknown name is found");
        auto kept = Logger::get("a");
        a.reset();
        mc::check(Logger::get("a") == kept && kept, "lookup", "a logger kept alive by a look-up is not found");
    });
    add("names-two-creators", 3, 4, [=] {
        World w(0);
        std::shared_ptr<Logger> a, b;
        std::thread t([&] { b = make(w, "n"); });
        a = make(w, "n");
        t.join();
        mc::check((a != nullptr) != (b != nullptr), "duplicate", "%d of two loggers of the same name were created", (a ? 1 : 0) + (b ? 1 : 0));
        mc::check(Logger::get("n") == (a ? a : b), "lookup", "the created logger is not found");
    });
    add("names-drop-lookup", 3, 4, [=] {
        World w(0);
        auto a = make(w, "n");
        std::shared_ptr<Logger> found;
        std::thread t([&] { found = Logger::get("n"); if (found) mc::check(found->name() == "n", "name", "a found logger is dead"); });
        a.reset();
        auto again = Logger::get("n");
        t.join();
        mc::check(!again || found, "lookup", "a dropped logger is found");
        if (found) mc::check(Logger::get("n") == found, "lookup", "a logger kept alive by a look-up is not found");
        else mc::check(!Logger::get("n"), "lookup", "a dropped logger is found");
    });
    add("names-drop-create", 3, 4, [=] {
        World w(0);
        auto a = make(w, "n");
        std::thread t([&] { a.reset(); });
        auto b = make(w, "n");
        t.join();
        mc::check(Logger::get("n") == b, "lookup", "after one logger was dropped and another one was %s, looking up the name gives the wrong answer", b ? "created" : "refused");
        if (!b) b = make(w, "n");
        mc::check(b && Logger::get("n") == b, "create", "the name cannot be used after its logger is gone");
    });
    add("names-three", 2, 3, [=] {
        World w(0);
        auto a = make(w, "n");
        std::shared_ptr<Logger> b, c;
        std::thread t([&] { a.reset(); b = make(w, "n"); });
        std::thread u([&] { c = make(w, "n"); });
        t.join();
        u.join();
        mc::check(!(b && c), "duplicate", "two live loggers have the same name");
        mc::check(b || c, "create", "no logger could be created although the name was free");
        mc::check(Logger::get("n") == (b ? b : c), "lookup", "the live logger is not found by its name");
    });
}
