// C01: concurrent queue and stack: every bounded interleaving of small programs, checked for
// linearisability against a sequential queue/stack, for promptness and for data races.
#include "fly/types/concurrency/concurrent_queue.hpp"
#include "fly/types/concurrency/concurrent_stack.hpp"
#include "mcsched.hpp"

#include <memory>
#include <thread>

using namespace std::chrono_literals;

// P push, W waiting pop, T timed pop, S size, E empty
struct Op { char kind; int arg; };
using Script = std::vector<std::vector<Op>>;   // one list per thread; thread 0 is the main thread

struct Item
{
    std::unique_ptr<int> p;
};

struct Rec { char kind; int arg; long long result; std::size_t call, ret; };

struct History
{
    mc::Log order;
    std::vector<Rec> recs;

    std::size_t begin(char k, int arg)
    {
        order.add(k);
        mc::Ignore ig;
        recs.push_back({k, arg, 0, order.size(), 0});
        return recs.size() - 1;
    }
    void end(std::size_t i, long long r)
    {
        order.add(-1);
        mc::Ignore ig;
        recs[i].result = r;
        recs[i].ret = order.size();
    }
};

static bool linearise(std::vector<Rec> const &r, std::vector<char> &used, std::vector<int> &content, bool stack, std::size_t left)
{
    if (left == 0) return true;
    for (std::size_t i = 0; i < r.size(); ++i)
    {
        if (used[i]) continue;
        // may come next unless another unfinished operation returned before this one was called
        bool first = true;
        for (std::size_t j = 0; j < r.size() && first; ++j) if (!used[j] && j != i && r[j].ret < r[i].call) first = false;
        if (!first) continue;
        auto saved = content;
        bool ok = true;
        switch (r[i].kind)
        {
            case 'P': content.push_back(r[i].arg); break;
            case 'W': case 'T':
                if (r[i].kind == 'T' && r[i].result < 0) { ok = content.empty(); break; }
                if (content.empty()) { ok = false; break; }
                if (stack) { ok = content.back() == r[i].result; content.pop_back(); }
                else { ok = content.front() == r[i].result; content.erase(content.begin()); }
                break;
            case 'S': ok = r[i].result == static_cast<long long>(content.size()); break;
            case 'E': ok = (r[i].result != 0) == content.empty(); break;
        }
        if (ok)
        {
            used[i] = 1;
            if (linearise(r, used, content, stack, left - 1)) return true;
            used[i] = 0;
        }
        content = saved;
    }
    return false;
}

template <template <typename> class Container>
static void run(Script const &script, std::vector<int> const &initial, bool stack, bool prompt)
{
    Container<Item> c;
    History h;
    for (int v : initial)
    {
        auto i = h.begin('P', v);
        c.push(Item {std::make_unique<int>(v)});
        h.end(i, 0);
    }
    auto body = [&](std::vector<Op> const &ops) {
        for (auto const &op : ops)
        {
            std::size_t const i = h.begin(op.kind, op.arg);
            long long result = 0;
            std::int64_t const t0 = mc::now_ns();
            switch (op.kind)
            {
                case 'P': c.push(Item {std::make_unique<int>(op.arg)}); break;
                case 'W':
                {
                    Item it;
                    c.pop(it);
                    mc::check(it.p != nullptr, "empty item", "a waiting pop returned without an item");
                    result = *it.p;
                    break;
                }
                case 'T':
                {
                    Item it;
                    int const idle = mc::idle_advances();
                    bool const ok = c.pop(it, std::chrono::milliseconds(10));
                    result = ok ? 1 : -1;
                    if (ok)
                    {
                        mc::check(it.p != nullptr, "empty item", "a timed pop reported success without an item");
                        result = *it.p;
                        if (prompt) mc::check(mc::idle_advances() == idle, "late", "a timed pop returned its item only because its time ran out, although the item was there before");
                    }
                    else
                    {
                        mc::check(it.p == nullptr, "taken", "a timed pop reported failure but took an item");
                        mc::check(mc::now_ns() - t0 >= 10000000, "early", "a timed pop reported failure after %.3f ms of 10 ms", static_cast<double>(mc::now_ns() - t0) / 1e6);
                    }
                    break;
                }
                case 'S': result = static_cast<long long>(c.size()); break;
                case 'E': result = c.empty(); break;
            }
            h.end(i, result);
        }
    };
    std::vector<std::thread> threads;
    for (std::size_t t = 1; t < script.size(); ++t) threads.emplace_back([&, t] { body(script[t]); });
    body(script[0]);
    for (auto &t : threads) t.join();

    // what is left comes out in order
    std::size_t n = c.size();
    mc::check(c.empty() == (n == 0), "empty/size", "empty() is %d but size() is %zu", c.empty(), n);
    for (; n > 0; --n)
    {
        auto i = h.begin('W', 0);
        Item it;
        c.pop(it);
        h.end(i, it.p ? *it.p : -7);
    }
    auto i = h.begin('E', 0);
    h.end(i, c.empty());

    mc::Ignore ig;
    std::vector<char> used(h.recs.size(), 0);
    std::vector<int> content;
    if (!linearise(h.recs, used, content, stack, h.recs.size()))
    {
        std::string s;
        for (auto const &r : h.recs)
        {
            char b[80];
            std::snprintf(b, sizeof b, "%s%c%d=%lld@%zu-%zu", s.empty() ? "" : " ", r.kind, r.arg, r.result, r.call, r.ret);
            s += b;
        }
        mc::fail("not linearisable", "no order of the operations explains their results: %s", s.c_str());
    }
}

static std::string script_name(Script const &s, std::vector<int> const &init)
{
    std::string r = std::to_string(init.size()) + ":";
    for (auto const &t : s) { for (auto const &o : t) r += o.kind; r += "|"; }
    r.pop_back();
    return r;
}

static void add(std::vector<std::string> const &threads, int init, bool prompt, bool spurious, int quick, int thorough)
{
    Script s;
    std::vector<int> initial;
    int v = 1;
    for (int i = 0; i < init; ++i) initial.push_back(v++);
    for (auto const &t : threads)
    {
        s.emplace_back();
        for (char k : t) s.back().push_back({k, k == 'P' ? v++ : 0});
    }
    mc::Opt o;
    o.quick = quick;
    o.thorough = thorough;
    o.policies = 2;
    o.spurious = spurious;
    std::string const n = script_name(s, initial);
    mc::program("queue-" + n, o, [s, initial, prompt] { run<fly::ConcurrentQueue>(s, initial, false, prompt); });
    mc::program("stack-" + n, o, [s, initial, prompt] { run<fly::ConcurrentStack>(s, initial, true, prompt); });
}

void programs()
{
    bool const T = mc::thorough();
    // Two threads: every pair of operation lists up to length two in which no waiting pop can starve.
    std::vector<std::string> lists;
    for (char a : std::string("PWTSE")) { lists.push_back(std::string(1, a)); for (char b : std::string("PWTSE")) lists.push_back(std::string {a, b}); }
    auto count = [](std::string const &s, char k) { return static_cast<int>(std::count(s.begin(), s.end(), k)); };
    for (std::size_t i = 0; i < lists.size(); ++i)
        for (std::size_t j = 0; j < lists.size(); ++j)
            for (int init = 0; init <= 1; ++init)
            {
                auto const &a = lists[i], &b = lists[j];
                if (a.size() == 1 && b.size() == 1 && init == 0) {}
                auto const all = a + b;
                int const pushes = count(all, 'P') + init, waits = count(all, 'W'), timed = count(all, 'T');
                if (waits && pushes < waits + timed) continue;
                if (pushes == 0 && waits == 0 && timed == 0) continue;
                if (!T && (count(all, 'S') + count(all, 'E') > 1)) continue;
                if (count(all, 'P') == 0 && init == 0 && timed < 2) continue;
                // a waiting pop before the push it needs can starve
                if (waits)
                {
                    auto starve = [&](std::string const &x, std::string const &y) {
                        // x waits while y can still push enough before blocking itself
                        int have = init;
                        std::size_t p = 0, q = 0;
                        for (bool moved = true; moved;)
                        {
                            moved = false;
                            while (p < x.size() && (x[p] != 'W' || have > 0)) { if (x[p] == 'P') ++have; if (x[p] == 'W' || (x[p] == 'T' && have > 0)) --have; ++p; moved = true; }
                            while (q < y.size() && (y[q] != 'W' || have > 0)) { if (y[q] == 'P') ++have; if (y[q] == 'W' || (y[q] == 'T' && have > 0)) --have; ++q; moved = true; }
                        }
                        return p < x.size() || q < y.size();
                    };
                    if (starve(a, b) || starve(b, a)) continue;
                    // every order of grabbing: be conservative, only one thread waits unless items suffice from the start
                    if (count(a, 'W') && count(b, 'W') && count(a, 'P') && count(b, 'P') && init == 0 && (a[0] == 'W' || b[0] == 'W')) continue;
                }
                if (!T && j < i && a.size() == b.size() && count(all, 'T') == 0) continue;
                add({a, b}, init, false, T, T ? 3 : 3, 4);
            }
    // Three threads.
    for (auto const &s : std::vector<std::vector<std::string>> {{"PP", "W", "W"}, {"P", "P", "WW"}, {"PP", "T", "T"}, {"PP", "W", "T"}, {"P", "T", "T"}, {"PP", "WP", "W"}, {"PE", "PS", "WW"}, {"PT", "PT", "S"}, {"PW", "PW", "PW"}, {"PPP", "W", "WW"}})
        add(s, 0, false, false, T ? 3 : 2, 3);
    if (T) for (auto const &s : std::vector<std::vector<std::string>> {{"PPP", "W", "W", "W"}, {"PP", "PP", "WW", "WW"}, {"PP", "T", "T", "T"}}) add(s, 0, false, false, 2, 2);
    // Promptness and wake-ups with spurious wake-ups explored.
    for (auto const &s : std::vector<std::vector<std::string>> {{"P", "T"}, {"PP", "T", "T"}, {"PP", "TT"}, {"PSP", "TT"}, {"P", "W"}, {"PP", "WW"}, {"E", "T"}})
        add(s, 0, s[0] != "E", true, s.size() > 2 ? 2 : 3, s.size() > 2 ? 3 : 5);
}
