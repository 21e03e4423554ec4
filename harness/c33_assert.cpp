// C33: what a failed assertion reports, and that a holding one does nothing at all.
#undef NDEBUG
#include "mc_enum.hpp"

#include "fly/fly.hpp"

#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <tuple>

#include "fly/assert/assert.hpp"

int disabled();
extern int g_disabled_evaluated;

namespace {

// ---------------------------------------------------------------------------------------- standard error, caught
struct Caught
{
    std::stringbuf err;
    std::streambuf *old;
    Caught() : old(std::cerr.rdbuf(&err)) { }
    ~Caught()
    {
        std::cerr.clear();
        std::cerr.rdbuf(old);
        std::cerr.flags(std::ios::dec | std::ios::skipws | std::ios::unitbuf);
        std::cerr.width(0);
        std::cerr.fill(' ');
    }
};

// the lines, without styling, blank lines left out
std::vector<std::string> lines_of(std::string const &raw)
{
    std::vector<std::string> out;
    std::string line;
    for (std::size_t i = 0; i <= raw.size(); ++i)
    {
        if (i == raw.size() || raw[i] == '\n')
        {
            if (!line.empty()) out.push_back(line);
            line.clear();
            continue;
        }
        if (raw[i] == '\x1b')
        {
            while (i < raw.size() && !(raw[i] >= 'A' && raw[i] <= 'Z') && !(raw[i] >= 'a' && raw[i] <= 'z')) ++i;
            continue;
        }
        line += raw[i];
    }
    return out;
}
std::string show(std::vector<std::string> const &v)
{
    std::string s;
    for (auto const &l : v)
        for (char c : l + "|")
        {
            if (static_cast<unsigned char>(c) < 32) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned char>(c)); s += b; }
            else s += c;
        }
    return s;
}

// ---------------------------------------------------------------------------------------- the program
int g_evaluated, g_handled;
std::size_t g_lines_at_handler;
bool g_throw;
Caught *g_caught;
void handler()
{
    ++g_handled;
    g_lines_at_handler = lines_of(g_caught->err.str()).size();
    if (g_throw) throw 42;
}
struct Condition   // only convertible explicitly
{
    bool value;
    explicit operator bool() const { ++g_evaluated; return value; }
};
Condition condition(bool v) { return {v}; }

struct Case
{
    bool holds;
    int message;   // 0: none
    int state;
    bool throws;
};
constexpr char const *kMessages[] = {nullptr, "Message", "with {} and %s", "", "inner \" quote", "a long message ........................................................................................................................."};
constexpr int kMessageCount = 6;

std::uint32_t g_line;
std::string g_expression;
std::string g_function;

#define CHECKED(...)                                                                                                   \
    g_line = __LINE__, g_function = __FUNCTION__;                                                                      \
    FLY_ASSERT_IMPL(handler, condition(c.holds) __VA_OPT__(, ) __VA_ARGS__)

#define WITH_MESSAGE(...)                                                                                              \
    switch (c.message)                                                                                                 \
    {                                                                                                                  \
        case 0: CHECKED(__VA_ARGS__); break;                                                                           \
        case 1: CHECKED("Message" __VA_OPT__(, ) __VA_ARGS__); break;                                                  \
        case 2: CHECKED("with {} and %s" __VA_OPT__(, ) __VA_ARGS__); break;                                           \
        case 3: CHECKED("" __VA_OPT__(, ) __VA_ARGS__); break;                                                         \
        case 4: CHECKED("inner \" quote" __VA_OPT__(, ) __VA_ARGS__); break;                                           \
        default: CHECKED("a long message ........................................................................................................................." __VA_OPT__(, ) __VA_ARGS__); break; \
    }

std::string text(int v) { return std::to_string(v); }
std::string text(std::string const &v) { return v; }
std::string text(bool v) { return v ? "true" : "false"; }
std::string text(char v) { return std::string(1, v); }
std::string text(double v) { std::ostringstream s; s << v; return s.str(); }
std::string text(char const *v) { return v; }
std::string text(std::uint64_t v) { return std::to_string(v); }

using Names = std::vector<std::pair<std::string, std::string>>;

void judge(mc::Run &r, Case const &c, Caught &caught, Names const &captures, bool thrown)
{
    std::string const raw = caught.err.str();
    auto const got = lines_of(raw);
    std::string what = std::string(c.holds ? "holding" : "failing") + ", message " + (c.message ? kMessages[c.message] : "none") + ", " + std::to_string(captures.size()) + " captures";
    if (g_evaluated != 1) r.fail("C33/evaluated", "%s: the expression is evaluated %d times", what.c_str(), g_evaluated);
    if (g_handled != (c.holds ? 0 : 1)) r.fail("C33/handler", "%s: the handler is called %d times", what.c_str(), g_handled);
    if (thrown != (c.throws && !c.holds)) r.fail("C33/handler", "%s: what the handler throws is lost", what.c_str());
    if (c.holds || c.state == 4)
    {
        if (!raw.empty()) r.fail("C33/quiet", "%s: something is reported: %s", what.c_str(), show(got).c_str());
        return;
    }
    std::vector<std::string> want;
    std::string first = "Assertion failed:";
    if (c.message && kMessages[c.message][0]) first += std::string(" ") + kMessages[c.message];
    want.push_back(first);
    want.push_back("\tFLY_ASSERT(" + (g_expression.empty() ? "condition(c.holds)" : g_expression) + ")");
    want.push_back(std::string("\tat ") + __FILE__ + ":" + std::to_string(g_line));
    want.push_back("\tin " + g_function);
    if (!captures.empty()) want.push_back("Captures:");
    for (auto const &[name, value] : captures) want.push_back("\t" + name + " => " + value);
    want.push_back("Call stack:");
    auto compare = got;
    if (c.state != 0 && !compare.empty() && compare[0].find("Assertion failed:") == std::string::npos) compare.erase(compare.begin());   // a padded line break
    if (compare != want && !(captures.size() == 0 && compare == want)) r.fail("C33/report", "%s: the report is %s instead of %s", what.c_str(), show(got).c_str(), show(want).c_str());
    if (raw.find('\0') != std::string::npos) r.fail("C33/report", "%s: the report contains a zero byte", what.c_str());
    if (g_lines_at_handler != got.size()) r.fail("C33/report", "%s: the report is not complete when the handler is called", what.c_str());
    if (!raw.empty() && raw.back() != '\n') r.fail("C33/report", "%s: the report does not end its line", what.c_str());
}

template <typename Body>
void run(mc::Run &r, Case const &c, Names const &captures, Body const &body)
{
    Caught caught;
    g_caught = &caught;
    g_evaluated = g_handled = 0;
    g_throw = c.throws;
    switch (c.state)
    {
        case 1: std::cerr << std::hex << std::showbase; break;
        case 2: std::cerr.width(7); std::cerr.fill('*'); break;
        case 3: std::cerr << std::uppercase << std::oct << std::left; break;
        case 4: std::cerr.setstate(std::ios::badbit); break;
        default: break;
    }
    bool thrown = false;
    try { body(); }
    catch (int) { thrown = true; }
    judge(r, c, caught, captures, thrown);
    r.transitions();
    if (!c.holds) r.nontrivial();
    r.state(mc::hash_mix(mc::hash_mix(static_cast<std::uint64_t>(c.message * 10 + c.state), captures.size()), static_cast<std::uint64_t>(c.holds * 2 + c.throws)));
    if (r.want_sample(400)) r.sample("%s, message %d, %zu captures, stream state %d: %zu lines", c.holds ? "holding" : "failing", c.message, captures.size(), c.state, lines_of(caught.err.str()).size());
}

template <typename F>
void cases(mc::Run &r, F const &f)
{
    for (int holds = 0; holds < 2; ++holds)
        for (int message = 0; message < kMessageCount; ++message)
            for (int state = 0; state < 5; ++state)
                for (int throws = 0; throws < 2; ++throws)
                {
                    if (!r.take()) continue;
                    f(Case {holds != 0, message, state, throws != 0});
                }
}

auto const kValues = std::make_tuple(-17, std::string("a string"), true, 'x', 2.5, static_cast<char const *>("a pointer"), std::uint64_t {18446744073709551615ull}, std::string());
constexpr std::size_t kValueCount = std::tuple_size_v<decltype(kValues)>;

template <typename F, std::size_t... I>
void each_value(F const &f, std::index_sequence<I...>) { (f(std::get<I>(kValues)), ...); }
template <typename F>
void each_value(F const &f) { each_value(f, std::make_index_sequence<kValueCount>()); }

template <typename A>
void one(mc::Run &r, Case const &c, A const &a)
{
    run(r, c, {{"alpha", text(a)}}, [&] { A alpha = a; WITH_MESSAGE(alpha); });
}
template <typename A, typename B>
void two(mc::Run &r, Case const &c, A const &a, B const &b)
{
    run(r, c, {{"alpha", text(a)}, {"beta", text(b)}}, [&] { A alpha = a; B beta = b; WITH_MESSAGE(alpha, beta); });
}
template <typename A, typename B, typename C>
void three(mc::Run &r, Case const &c, A const &a, B const &b, C const &g)
{
    run(r, c, {{"alpha", text(a)}, {"beta", text(b)}, {"gamma", text(g)}}, [&] { A alpha = a; B beta = b; C gamma = g; WITH_MESSAGE(alpha, beta, gamma); });
}

// statements of every shape
int shapes(bool first, bool second)
{
    Case c {};
    (void)c;
    int n = 0;
    if (first)
        FLY_ASSERT_IMPL(handler, second, n);
    else
        ++n;
    for (int i = 0; i < 3; ++i) FLY_ASSERT_IMPL(handler, second || i == 1, "in a loop", i);
    return n;
}
bool inner(bool holds)
{
    int depth = 2;
    FLY_ASSERT_IMPL(handler, holds, "inner", depth);
    return holds;
}

// ---------------------------------------------------------------------------------------- the real macro
int g_zero = 0;
[[gnu::noinline]] void dies(int kind)
{
    int value = 5;
    std::string name = "n";
    switch (kind)
    {
        case 0: FLY_ASSERT(g_zero == 1); break;
        case 1: FLY_ASSERT(g_zero == 1, "because"); break;
        case 2: FLY_ASSERT(g_zero == 1, value, name); break;
        case 3: FLY_ASSERT(g_zero == 1, "because", name, value); break;
        case 4: FLY_ASSERT(g_zero == 0, "because", name, value); break;
        default: FLY_ASSERT(g_zero == 0); break;
    }
}
void real(mc::Run &r, int kind)
{
    int fds[2];
    if (pipe(fds) != 0) std::abort();
    pid_t const child = fork();
    if (child == 0)
    {
        signal(SIGABRT, SIG_DFL);
        rlimit const none {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        dup2(fds[1], 2);
        dies(kind);
        _exit(0);
    }
    close(fds[1]);
    std::string raw;
    char b[512];
    for (ssize_t n; (n = read(fds[0], b, sizeof b)) > 0;) raw.append(b, static_cast<std::size_t>(n));
    close(fds[0]);
    int status = 0;
    waitpid(child, &status, 0);
    auto const lines = lines_of(raw);
    if (kind >= 4)
    {
        if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) r.fail("C33/real", "a holding assertion ends the program");
        if (!raw.empty()) r.fail("C33/real", "a holding assertion reports %s", show(lines).c_str());
        return;
    }
    if (!WIFSIGNALED(status) || WTERMSIG(status) != SIGABRT) r.fail("C33/real", "a failing assertion does not abort the program");
    std::vector<std::string> want;
    want.push_back(kind & 1 ? "Assertion failed: because" : "Assertion failed:");
    want.push_back("\tFLY_ASSERT(g_zero == 1)");
    std::vector<std::string> names;
    if (kind == 2) names = {"\tvalue => 5", "\tname => n"};
    if (kind == 3) names = {"\tname => n", "\tvalue => 5"};
    bool good = lines.size() > 5 && lines[0] == want[0] && lines[1] == want[1] && lines[3] == "\tin dies" && lines[2].starts_with(std::string("\tat ") + __FILE__ + ":");
    std::size_t at = 4;
    if (good && !names.empty())
    {
        good = lines[at] == "Captures:" && lines.size() > at + 3 && lines[at + 1] == names[0] && lines[at + 2] == names[1];
        at += 3;
    }
    good = good && lines[at] == "Call stack:";
    // at least this function and its caller
    if (good && lines.size() < at + 3) r.fail("C33/real", "there is no call stack behind the report");
    if (!good) r.fail("C33/real", "the program reports %s", show(lines).c_str());
}

} // namespace

void enumerate(mc::Run &r)
{
    r.section("no captures");
    cases(r, [&](Case const &c) { run(r, c, {}, [&] { WITH_MESSAGE(); }); });
    r.section("one capture");
    each_value([&](auto const &a) { cases(r, [&](Case const &c) { one(r, c, a); }); });
    r.section("two captures");
    each_value([&](auto const &a) { each_value([&](auto const &b) { cases(r, [&](Case const &c) { two(r, c, a, b); }); }); });
    r.section("three captures");
    cases(r, [&](Case const &c) {
        three(r, c, 1, std::string("two"), 3);
        three(r, c, std::string(), false, 'y');
        three(r, c, 0.5, 0, true);
    });
    r.section("many captures");
    cases(r, [&](Case const &c) {
        Names names;
        for (int i = 0; i < 12; ++i) names.push_back({"v" + std::to_string(i), std::to_string(i * i)});
        run(r, c, names, [&] {
            int v0 = 0, v1 = 1, v2 = 4, v3 = 9, v4 = 16, v5 = 25, v6 = 36, v7 = 49, v8 = 64, v9 = 81, v10 = 100, v11 = 121;
            WITH_MESSAGE(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11);
        });
    });
    r.section("expressions");
    for (int which = 0; which < 7; ++which)
        for (int captures = 0; captures < 2; ++captures)
        {
            if (!r.take()) continue;
            Case c {false, 0, 0, false};
            int a_captured_variable_with_quite_a_long_name_that_goes_on_and_on_for_more_than_sixty_four_characters = 7;
            Names names;
            if (captures) names.push_back({"a_captured_variable_with_quite_a_long_name_that_goes_on_and_on_for_more_than_sixty_four_characters", "7"});
#define EXPRESSION(...) \
    g_expression = #__VA_ARGS__; \
    if (captures) run(r, c, names, [&] { g_line = __LINE__, g_function = __FUNCTION__; FLY_ASSERT_IMPL(handler, __VA_ARGS__, a_captured_variable_with_quite_a_long_name_that_goes_on_and_on_for_more_than_sixty_four_characters); }); \
    else run(r, c, names, [&] { g_line = __LINE__, g_function = __FUNCTION__; FLY_ASSERT_IMPL(handler, __VA_ARGS__); })

            switch (which)
            {
                case 0: EXPRESSION(condition(c.holds).operator bool()); break;
                case 1: EXPRESSION(!Condition{!static_cast<bool>(condition(c.holds))}.value); break;
                case 2: EXPRESSION(condition(c.holds) && "text with {} and {0} and %s and a \" and a \\ within"); break;
                case 3: EXPRESSION(condition(c.holds) && "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"); break;
                case 4: EXPRESSION(condition(c.holds) && "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"); break;
                case 5: EXPRESSION(condition(c.holds) || a_captured_variable_with_quite_a_long_name_that_goes_on_and_on_for_more_than_sixty_four_characters == 8 || a_captured_variable_with_quite_a_long_name_that_goes_on_and_on_for_more_than_sixty_four_characters > 9); break;
                default: EXPRESSION([&] { bool b {condition(c.holds)}; return b; }()); break;
            }
            g_expression.clear();
        }
    r.section("captured as they are");
    for (int before = 0; before < 4; ++before)
    {
        if (!r.take()) continue;
        // the value at the time of the failure, and the same capture twice
        Case c {false, 1, 0, false};
        int value = before;
        run(r, c, {{"value", std::to_string(before + 2)}, {"value", std::to_string(before + 2)}}, [&] { int value = before; value += 2; WITH_MESSAGE(value, value); });
        (void)value;
    }
    r.section("statements");
    for (int first = 0; first < 2; ++first)
        for (int second = 0; second < 2; ++second)
        {
            if (!r.take()) continue;
            Caught caught;
            g_caught = &caught;
            g_handled = 0;
            g_throw = false;
            int const n = shapes(first != 0, second != 0);
            int const wanted = second ? 0 : (first ? 1 : 0) + 2;
            if (n != (first ? 0 : 1) || g_handled != wanted) r.fail("C33/statement", "an assertion is no plain statement (%d, %d)", n, g_handled);
            std::string const raw = caught.err.str();
            std::size_t reports = 0;
            for (std::size_t at = 0; (at = raw.find("Assertion failed:", at)) != std::string::npos; ++at) ++reports;
            if (reports != static_cast<std::size_t>(wanted)) r.fail("C33/statement", "%zu reports instead of %d", reports, wanted);
            r.nontrivial();
        }
    r.section("an assertion within an assertion");
    for (int holds = 0; holds < 2; ++holds)
    {
        if (!r.take()) continue;
        Caught caught;
        g_caught = &caught;
        g_handled = 0;
        g_throw = false;
        FLY_ASSERT_IMPL(handler, inner(holds != 0));
        if (g_handled != (holds ? 0 : 2)) r.fail("C33/nested", "nested assertions call the handler %d times", g_handled);
        auto const lines = lines_of(caught.err.str());
        if (!holds && (lines.size() != 12 || lines[0] != "Assertion failed: inner" || lines[7] != "Assertion failed:")) r.fail("C33/nested", "nested assertions report %s", show(lines).c_str());
        r.nontrivial();
    }
    r.section("the macro");
    for (int kind = 0; kind < 6; ++kind)
    {
        if (!r.take()) continue;
        real(r, kind);
        r.nontrivial();
    }
    r.section("compiled away");
    if (r.take())
    {
        Caught caught;
        int const n = disabled();
        if (n != 6) r.fail("C33/disabled", "%d statements ran instead of 6", n);
        if (g_disabled_evaluated != 0) r.fail("C33/disabled", "an assertion that is compiled away evaluates its arguments");
        if (!caught.err.str().empty()) r.fail("C33/disabled", "an assertion that is compiled away reports something");
    }
}
