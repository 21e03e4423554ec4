// C07: configurations over a virtual file and a virtual inotify: all histories of file contents and of
// configurations created and dropped up to a depth, and all bounded schedules of readers, updates and ends.
#include "fly/config/config.hpp"
#include "fly/config/config_manager.hpp"
#include "task_common.hpp"
#include "vos.hpp"

#include <cmath>
#include <filesystem>
#include <optional>

using fly::config::ConfigFileType;
using fly::config::ConfigManager;
using vos::Change;

namespace {

void add(std::string const &name, int quick, int thorough, std::function<void()> body, int policies = 2)
{
    mc::Opt o;
    o.quick = quick;
    o.thorough = thorough;
    o.policies = policies;
    o.max_idle = 2000;
    mc::program(name, o, std::move(body));
}

struct Values
{
    int n; std::string s; double d; bool operator==(Values const &) const = default;
    std::string text() const { return "n=" + std::to_string(n) + " s='" + s + "' d=" + std::to_string(d); }
};
Values const DEFAULTS {-1, "def", 0.25};

template <char Id>
struct Conf final : public fly::config::Config
{
    static constexpr char const identifier_text[] = {Id, '\0'};
    static constexpr char const *identifier = identifier_text;
    int n() const { return get_value<int>("n", -1); }
    std::string s() const { return get_value<std::string>("s", "def"); }
    double d() const { return get_value<double>("d", 0.25); }
    Values all() const { return {n(), s(), d()}; }
};
using A = Conf<'a'>;
using B = Conf<'b'>;
struct OtherA final : public fly::config::Config { static constexpr char const *identifier = "a"; };

struct Content { std::optional<std::string> text; Values a, b; };

std::vector<Content> const JSON {
    {std::nullopt, DEFAULTS, DEFAULTS},
    {R"({"a":{"n":1,"s":"x","d":1.5},"b":{"n":11,"s":"y"}})", {1, "x", 1.5}, {11, "y", 0.25}},
    {R"({"a":{"n":2},"c":{"n":3}})", {2, "def", 0.25}, DEFAULTS},
    {R"({"a":{"n":1,"s":"x")", DEFAULTS, DEFAULTS},
    {R"([{"a":{"n":4}}])", DEFAULTS, DEFAULTS},
    {R"({"a":5,"b":{"n":"12","d":3}})", DEFAULTS, {12, "def", 3}},
    {R"({"a":{"n":"zz","d":[1],"s":"w"},"b":["n",7]})", {-1, "w", 0.25}, DEFAULTS},
    {"", DEFAULTS, DEFAULTS},
};
std::vector<Content> const INI {
    {std::nullopt, DEFAULTS, DEFAULTS},
    {"[a]\nn=1\ns=x\nd=1.5\n[b]\nn=11\ns=y\n", {1, "x", 1.5}, {11, "y", 0.25}},
    {"[a]\nn=2\n[c]\nn=3\n", {2, "def", 0.25}, DEFAULTS},
    {"[a\nn=1\n", DEFAULTS, DEFAULTS},
    {"n=4\n", DEFAULTS, DEFAULTS},
    {"[b]\nn=12\nd=3\n", DEFAULTS, {12, "def", 3}},
    {"[a]\nn=zz\nd=?\ns=w\n", {-1, "w", 0.25}, DEFAULTS},
    {"", DEFAULTS, DEFAULTS},
};

char const *const FILE_NAME = "/vfs/d/conf";

struct World
{
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<SequencedTaskRunner> runner;
    std::shared_ptr<ConfigManager> configs;
    std::vector<Content> const &contents;
    ConfigFileType type;
    std::size_t current {0};
    std::shared_ptr<A> a;
    std::shared_ptr<B> b;
    std::string history;

    explicit World(bool json, std::uint32_t workers = 1) : contents(json ? JSON : INI), type(json ? ConfigFileType::Json : ConfigFileType::Ini)
    {
        vos::make_dir("/vfs");
        vos::make_dir("/vfs/d");
        manager = TaskManager::create(workers);
        runner = SequencedTaskRunner::create(manager);
        configs = ConfigManager::create(runner, type, FILE_NAME);
        mc::check(configs != nullptr, "create", "the configuration manager was not created");
    }
    void say(std::string const &s) { mc::Ignore ig; history += (history.empty() ? "" : ", ") + s; }
    void change(std::size_t to)
    {
        say("content " + std::to_string(to));
        bool const was = contents[current].text.has_value(), is = contents[to].text.has_value();
        current = to;
        if (!is) { if (was) vos::change(FILE_NAME, Change::Delete); }
        else vos::change(FILE_NAME, was ? Change::Modify : Change::Create, *contents[to].text);
    }
    // until everything changed so far is handled
    void settle()
    {
        vos::settle();
        mc::Log end;
        mc::check(runner->post_task(FROM_HERE, [&end] { end.add(1); }), "post", "posting failed");
        end.wait(1, "the sequence to go on");
        say("settle");
    }
    template <typename C>
    void check_one(std::shared_ptr<C> const &c, Values const &want)
    {
        if (!c) return;
        Values const have = c->all();
        mc::check(have == want, "values", "after [%s] configuration '%s' reports %s instead of %s", history.c_str(), C::identifier, have.text().c_str(), want.text().c_str());
    }
    void check()
    {
        check_one(a, contents[current].a);
        check_one(b, contents[current].b);
    }
    // never more than the live ones and the monitor's own remain
    void prune()
    {
        std::size_t const n = configs->prune();
        std::size_t const live = 1 + (a ? 1 : 0) + (b ? 1 : 0);
        mc::check(n == live, "prune", "after [%s] %zu configurations are left by prune instead of %zu", history.c_str(), n, live);
    }
    void finish(bool stop = true)
    {
        settle();
        check();
        configs.reset();
        check();
        a.reset();
        b.reset();
        if (stop) mc::check(manager->stop(), "stop", "stop reported false");
        runner.reset();
        manager.reset();
        mc::Ignore ig;
        mc::check(vos::world().fds.empty(), "descriptor kept", "after everything is gone %zu inotify descriptors are still open", vos::world().fds.size());
    }
};

} // namespace

void programs()
{
    bool const T = mc::thorough();
    for (bool json : {true, false})
    {
        std::string const P = json ? "json-" : "ini-";
        // every pair (triple) of contents, with the configurations created before or in between
        for (int when = 0; when < 3; ++when)
        {
            add(P + "contents-" + std::to_string(when), 0, 0, [=] {
                World w(json);
                int const depth = T ? 4 : 3;
                for (int i = 0; i < depth; ++i)
                {
                    if (i == when) { w.a = w.configs->create_config<A>(); w.b = w.configs->create_config<B>(); w.say("create a b"); w.check(); }
                    w.change(static_cast<std::size_t>(mc::choose(8, "content")));
                    w.settle();
                    w.check();
                }
                w.finish();
            });
        }
        // every history of changes, configurations created, dropped and pruned
        add(P + "history", 0, 0, [=] {
            World w(json);
            w.change(1);
            w.a = w.configs->create_config<A>();
            int const depth = T ? 5 : 4;
            static std::size_t const few[] = {2, 0, 4, 1, 3};
            for (int i = 0; i < depth; ++i)
            {
                switch (mc::choose(7, "operation"))
                {
                    case 0: w.change(few[i % 5]); break;
                    case 1: w.change(few[(i + 1) % 5]); w.settle(); w.check(); break;
                    case 2: { w.say("create a"); auto x = w.configs->create_config<A>(); mc::check(!w.a || x == w.a, "shared", "two live configurations of one type"); w.a = x; break; }
                    case 3: { w.say("create b"); auto x = w.configs->create_config<B>(); mc::check(!w.b || x == w.b, "shared", "two live configurations of one type"); w.b = x; break; }
                    case 4: w.a.reset(); w.say("drop a"); break;
                    case 5: w.b.reset(); w.say("drop b"); break;
                    default: w.say("prune"); w.prune(); break;
                }
            }
            w.settle();
            w.check();
            if (!w.b) { w.b = w.configs->create_config<B>(); w.say("create b"); w.check(); }
            w.change(1);
            w.finish();
        });
        // a write seen in two halves
        add(P + "torn", 1, 2, [=] {
            World w(json);
            w.a = w.configs->create_config<A>();
            std::string const text = *w.contents[1].text;
            vos::change(FILE_NAME, Change::Create, "");
            vos::change(FILE_NAME, Change::Modify, text.substr(0, text.size() / 2));
            vos::change(FILE_NAME, Change::Modify, text);
            w.current = 1;
            w.settle();
            w.check();
            w.finish();
        });
        // the manager goes while changes are waiting
        add(P + "drop", json ? 2 : 1, 3, [=] {
            World w(json);
            w.a = w.configs->create_config<A>();
            w.change(1);
            w.configs.reset();
            Values const v = w.a->all();
            (void)v;
            w.change(2);
            mc::Log end;
            w.runner->post_task(FROM_HERE, [&end] { end.add(1); });
            end.wait(1, "the sequence to go on");
            Values const x = w.a->all();
            mc::check(x == DEFAULTS || x == w.contents[1].a || x == w.contents[2].a, "values", "after the manager is gone the configuration reports %s", x.text().c_str());
            mc::check(w.manager->stop(), "stop", "stop reported false");
            w.runner.reset();
            w.manager.reset();
            mc::Ignore ig;
            mc::check(vos::world().fds.empty(), "descriptor kept", "after everything is gone %zu inotify descriptors are still open", vos::world().fds.size());
        });
    }
    add("drop-in-thread", 1, 3, [=] {
        World w(true);
        w.change(1);
        std::thread t([&] { w.change(2); });
        w.configs.reset();
        t.join();
        mc::check(w.manager->stop(), "stop", "stop reported false");
    });
    add("two-holders", 1, 3, [=] {
        World w(true);
        auto second = w.configs;
        std::thread t([&, s = std::move(second)]() mutable { s->create_config<A>(); s.reset(); });
        w.change(1);
        w.configs.reset();
        t.join();
        mc::check(w.manager->stop(), "stop", "stop reported false");
    });
    add("stop", 2, 3, [=] {
        World w(true);
        w.a = w.configs->create_config<A>();
        w.change(1);
        mc::check(w.manager->stop(), "stop", "stop reported false");
        Values const x = w.a->all();
        mc::check(x == DEFAULTS || x == w.contents[1].a, "values", "the configuration reports %s", x.text().c_str());
        w.manager.reset();
        w.runner.reset();
        w.configs.reset();
    });
    // readers see the old or the new value of each name
    add("readers", 1, 2, [=] {
        World w(true);
        w.change(1);
        w.settle();
        w.a = w.configs->create_config<A>();
        std::thread t([&] {
            auto mine = w.a;
            for (int i = 0; i < 2; ++i)
            {
                int const n = mine->n();
                mc::check(n == 1 || n == 2, "values", "a reader sees n=%d between 1 and 2", n);
                std::string const s = mine->s();
                mc::check(s == "x" || s == "def", "values", "a reader sees s='%s' between 'x' and the default", s.c_str());
            }
        });
        w.change(2);
        t.join();
        w.finish();
    });
    // creating during an update
    for (int variant = 0; variant < 2; ++variant)
    {
        add("create-during-update-" + std::to_string(variant), 1, 2, [=] {
            World w(true);
            if (variant == 1) { w.change(2); w.a = w.configs->create_config<A>(); }
            std::thread t([&] { w.b = w.configs->create_config<B>(); });
            w.change(1);
            auto again = w.configs->create_config<A>();
            mc::check(!w.a || again == w.a, "shared", "two live configurations of one type");
            w.a = again;
            again.reset();
            t.join();
            w.finish();
        });
    }
    add("create-twice", 1, 2, [=] {
        World w(true);
        std::shared_ptr<A> other;
        std::thread t([&] { other = w.configs->create_config<A>(); });
        w.a = w.configs->create_config<A>();
        t.join();
        mc::check(w.a && other == w.a, "shared", "two live configurations of one type");
        other.reset();
        w.change(1);
        w.finish();
    });
    add("drop-during-update", 1, 2, [=] {
        World w(true);
        w.a = w.configs->create_config<A>();
        w.b = w.configs->create_config<B>();
        w.change(1);
        std::thread t([&] { w.b.reset(); w.configs->prune(); });
        w.a.reset();
        w.a = w.configs->create_config<A>();
        t.join();
        w.finish();
    });
    add("other-type", 0, 1, [=] {
        World w(true);
        w.change(1);
        w.settle();
        w.a = w.configs->create_config<A>();
        mc::check(w.configs->create_config<OtherA>() == nullptr, "type", "one name was used for two types");
        w.check();
        w.finish();
    });
    add("refused", 0, 1, [=] {
        World w(true);
        mc::check(ConfigManager::create(w.runner, ConfigFileType::Json, "/vfs/none/conf") == nullptr, "create", "a manager was created for a missing directory");
        mc::check(ConfigManager::create(w.runner, ConfigFileType::Json, "/vfs/d") == nullptr, "create", "a manager was created for a directory");
        vos::world().fail_init = true;
        mc::check(ConfigManager::create(w.runner, ConfigFileType::Json, FILE_NAME) == nullptr, "create", "a manager was created without a monitor");
        vos::world().fail_init = false;
        vos::world().fail_watch = 1;
        mc::check(ConfigManager::create(w.runner, ConfigFileType::Json, FILE_NAME) == nullptr, "create", "a manager was created although its file cannot be monitored");
        w.a = w.configs->create_config<A>();
        w.change(1);
        w.finish();
    });
    // the file's directory is shared with somebody else, and other files change
    add("other-files", 1, 2, [=] {
        World w(true);
        w.a = w.configs->create_config<A>();
        vos::change("/vfs/d/other", Change::Create, "{}");
        w.change(1);
        vos::change("/vfs/d/confx", Change::Create, "{}");
        w.settle();
        w.check();
        vos::change("/vfs/d/conf", Change::MoveOut);
        w.current = 0;
        w.settle();
        w.check();
        vos::change("/vfs/d/conf", Change::MoveIn, *w.contents[2].text);
        w.current = 2;
        w.finish();
    });
}
