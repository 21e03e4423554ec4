// C32: what a styler and the console logger put on standard output and standard error, read back by a model of a
// terminal: every character with its attributes, every movement of the cursor with its place.
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/styler.hpp"
#include "mc_enum.hpp"

#include <algorithm>
#include <chrono>
#include <ctime>
#include <functional>
#include <iostream>
#include <locale>
#include <sstream>

namespace {

using namespace fly::logger;

// ---------------------------------------------------------------------------------------- the terminal
struct Attr
{
    unsigned styles {0};
    int fg {-1}, bg {-1};
    bool operator==(Attr const &) const = default;
};
struct Cell
{
    char c;
    Attr a;
    bool operator==(Cell const &) const = default;
};
struct Move
{
    std::size_t at;
    char direction;
    int distance;
    bool operator==(Move const &) const = default;
};
struct Screen
{
    std::vector<Cell> cells;
    std::vector<Move> moves;
    Attr now;
    std::string broken;

    void sgr(std::vector<int> const &p)
    {
        for (std::size_t i = 0; i < p.size(); ++i)
        {
            int const v = p[i];
            if (v == 0) now = {};
            else if (v == 1 || v == 2 || v == 3 || v == 4 || v == 5 || v == 9) now.styles |= 1u << v;
            else if (v >= 30 && v <= 37) now.fg = v - 30;
            else if (v >= 40 && v <= 47) now.bg = v - 40;
            else if (v >= 90 && v <= 97) now.fg = v - 90 + 8;
            else if (v >= 100 && v <= 107) now.bg = v - 100 + 8;
            else if (v == 39) now.fg = -1;
            else if (v == 49) now.bg = -1;
            else if ((v == 38 || v == 48) && i + 2 < p.size() && p[i + 1] == 5 && p[i + 2] >= 0 && p[i + 2] <= 255)
            {
                (v == 38 ? now.fg : now.bg) = p[i + 2];
                i += 2;
            }
            else { broken = "an unknown attribute"; return; }
        }
    }
    void read(std::string_view s)
    {
        for (std::size_t i = 0; i < s.size() && broken.empty(); ++i)
        {
            if (s[i] != '\x1b') { cells.push_back({s[i], now}); continue; }
            if (i + 1 >= s.size() || s[i + 1] != '[') { broken = "a broken escape sequence"; return; }
            std::vector<int> p;
            int v = -1;
            for (i += 2; i < s.size() && ((s[i] >= '0' && s[i] <= '9') || s[i] == ';'); ++i)
            {
                if (s[i] == ';') { p.push_back(v < 0 ? 0 : v); v = -1; }
                else v = (v < 0 ? 0 : v * 10) + (s[i] - '0');
                if (v > 100000) break;
            }
            if (i >= s.size()) { broken = "an incomplete escape sequence"; return; }
            p.push_back(v < 0 ? (s[i] == 'm' ? 0 : 1) : v);
            if (s[i] == 'm') sgr(p);
            else if (s[i] >= 'A' && s[i] <= 'D' && p.size() == 1) moves.push_back({cells.size(), s[i], p[0] == 0 ? 1 : p[0]});
            else broken = "an unknown escape sequence";
        }
    }
};

// ---------------------------------------------------------------------------------------- the modifiers
struct M
{
    int type;   // 0 style, 1 colour, 2 standard colour, 3 cursor, 4 direction
    int a, b;
};
constexpr Style kStyles[] = {Style::Default, Style::Blink, Style::Bold, Style::Dim, Style::Italic, Style::Strike, Style::Underline};
constexpr int kCodes[] = {0, 5, 1, 2, 3, 9, 4};
constexpr char kLetters[] = "ABCD";
constexpr Cursor::Direction kDirections[] = {Cursor::Up, Cursor::Down, Cursor::Forward, Cursor::Backward};

std::string name(std::vector<M> const &mods)
{
    std::string s;
    for (M const &m : mods)
    {
        if (!s.empty()) s += ", ";
        switch (m.type)
        {
            case 0: s += "style " + std::to_string(kCodes[m.a]); break;
            case 1: s += std::string(m.b ? "background " : "foreground ") + std::to_string(m.a); break;
            case 2: s += "standard colour " + std::to_string(m.a); break;
            case 3: s += std::string("cursor ") + kLetters[m.a] + std::to_string(m.b); break;
            default: s += std::string("cursor ") + kLetters[m.a]; break;
        }
    }
    return s;
}
Attr wanted(std::vector<M> const &mods)
{
    Attr a;
    for (M const &m : mods)
        if (m.type == 0)
        {
            if (kCodes[m.a] == 0) a = {};
            else a.styles |= 1u << kCodes[m.a];
        }
    for (M const &m : mods)
    {
        if (m.type == 1) (m.b ? a.bg : a.fg) = m.a;
        else if (m.type == 2) a.fg = m.a;
    }
    return a;
}
std::vector<Move> moves(std::vector<M> const &mods, std::size_t at)
{
    std::vector<Move> out;
    for (M const &m : mods)
    {
        if (m.type == 3) out.push_back({at, kLetters[m.a], m.b == 0 ? 1 : m.b});
        else if (m.type == 4) out.push_back({at, kLetters[m.a], 1});
    }
    return out;
}

using Make = std::function<Styler()>;
using Use = std::function<void(Make const &)>;
template <typename... Done>
void build(M const *mods, std::size_t n, bool moved, Use const &f, Done... done)
{
    if (n == 0)
    {
        if constexpr (sizeof...(Done) > 0)
        {
            if (moved) { f([&] { return Styler(std::move(done)...); }); }
            else { f([&] { return Styler(done...); }); }
        }
        return;
    }
    if constexpr (sizeof...(Done) < 3)
    {
        switch (mods->type)
        {
            case 0: build(mods + 1, n - 1, moved, f, done..., kStyles[mods->a]); break;
            case 1: build(mods + 1, n - 1, moved, f, done..., Color(static_cast<std::uint8_t>(mods->a), mods->b ? Color::Background : Color::Foreground)); break;
            case 2: build(mods + 1, n - 1, moved, f, done..., static_cast<Color::StandardColor>(mods->a)); break;
            case 3: build(mods + 1, n - 1, moved, f, done..., Cursor(kDirections[mods->a], static_cast<std::uint8_t>(mods->b))); break;
            default: build(mods + 1, n - 1, moved, f, done..., kDirections[mods->a]); break;
        }
    }
}

// ---------------------------------------------------------------------------------------- the streams
struct Grouping : std::numpunct<char>
{
    char do_thousands_sep() const override { return ','; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "yes"; }
};
std::locale const &grouping()
{
    static std::locale const l(std::locale::classic(), new Grouping());
    return l;
}
struct State
{
    std::ios::fmtflags flags;
    int width;
    char fill;
    bool grouped;
    std::ios::iostate state;
};
std::vector<State> states(bool many)
{
    using I = std::ios;
    std::vector<State> out;
    std::vector<I::fmtflags> flags {I::dec | I::skipws, I::hex | I::showbase | I::uppercase};
    if (many)
    {
        flags.push_back(I::oct);
        flags.push_back(I::dec | I::showpos | I::left);
        flags.push_back(I::hex | I::internal | I::boolalpha);
        flags.push_back(I::dec | I::unitbuf);
        flags.push_back(I::fmtflags());
    }
    for (auto f : flags)
        for (int width : {0, 9})
            for (char fill : {' ', '5'})
                for (bool grouped : {false, true})
                {
                    if (!many && (fill != ' ') != (width != 0)) continue;
                    if (!many && grouped != (width != 0)) continue;
                    out.push_back({f, width, fill, grouped, I::goodbit});
                }
    if (many)
        for (auto s : {I::badbit, I::failbit, I::eofbit}) out.push_back({I::dec, 0, ' ', false, s});
    return out;
}
void set(std::ostream &s, State const &st)
{
    s.clear();
    s.flags(st.flags);
    s.fill(st.fill);
    s.imbue(st.grouped ? grouping() : std::locale::classic());
    s.width(st.width);
    s.precision(6);
    s.clear(st.state);
}

// cout and cerr, caught
struct Caught
{
    std::stringbuf out, err;
    std::streambuf *old_out, *old_err;
    Caught() : old_out(std::cout.rdbuf(&out)), old_err(std::cerr.rdbuf(&err)) { }
    ~Caught()
    {
        set(std::cout, {std::ios::dec | std::ios::skipws, 0, ' ', false, std::ios::goodbit});
        set(std::cerr, {std::ios::dec | std::ios::skipws | std::ios::unitbuf, 0, ' ', false, std::ios::goodbit});
        std::cout.rdbuf(old_out);
        std::cerr.rdbuf(old_err);
    }
    std::string &&operator()(int which) { return std::move(text[which] = which ? err.str() : out.str()); }
    std::string text[2];
};

enum Value { Text, Number, Bool, Empty, Letter, Real };
constexpr int kValues = 6;
template <typename S>
void put(S &&s, int value)
{
    switch (value)
    {
        case Text: s << "text 12"; break;
        case Number: s << 1234567; break;
        case Bool: s << true; break;
        case Empty: s << std::string(); break;
        case Letter: s << 'x'; break;
        default: s << 1234.5; break;
    }
}

std::string plain_of(State const &st, std::vector<int> const &values, std::ostringstream &ref)
{
    set(ref, st);
    for (int v : values) put(ref, v);
    return ref.str();
}

bool expect(mc::Run &r, char const *key, std::string const &what, std::string const &raw, std::vector<Cell> const &cells, std::vector<Move> const &mv, bool end_default = true)
{
    Screen s;
    s.read(raw);
    std::string shown;
    for (char c : raw)
    {
        if (c == '\x1b') shown += "\\e";
        else if (c == '\n') shown += "\\n";
        else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned char>(c)); shown += b; }
        else shown += c;
        if (shown.size() > 300) break;
    }
    if (!s.broken.empty()) { r.fail(key, "%s: %s in \"%s\"", what.c_str(), s.broken.c_str(), shown.c_str()); return false; }
    std::string a, b;
    for (auto const &c : s.cells) a += c.c;
    for (auto const &c : cells) b += c.c;
    if (a != b) { r.fail(key, "%s: the text differs: \"%s\"", what.c_str(), shown.c_str()); return false; }
    if (s.cells != cells) { r.fail(key, "%s: the text has other styles or colours: \"%s\"", what.c_str(), shown.c_str()); return false; }
    if (s.moves != mv) { r.fail(key, "%s: the cursor moves otherwise: \"%s\"", what.c_str(), shown.c_str()); return false; }
    if (end_default && s.now != Attr()) { r.fail(key, "%s: styles or colours remain at the end: \"%s\"", what.c_str(), shown.c_str()); return false; }
    return true;
}
void append(std::vector<Cell> &cells, std::string const &text, Attr const &a)
{
    for (char c : text) cells.push_back({c, a});
}
bool same_format(std::ostream &a, std::ostream &b)
{
    return a.flags() == b.flags() && a.width() == b.width() && a.fill() == b.fill() && a.precision() == b.precision() && a.rdstate() == b.rdstate() && a.getloc() == b.getloc();
}
void add(std::vector<Move> &to, std::vector<Move> const &more) { to.insert(to.end(), more.begin(), more.end()); }

char const *const kTargets[] = {"cout", "cerr"};

// all ways to use one styler
void use(mc::Run &r, std::vector<M> const &mods, std::vector<State> const &sts, int values)
{
    Attr const attr = wanted(mods);
    std::string const what = name(mods);
    std::uint64_t n = 0;
    for (int moved = 0; moved < (values > 1 ? 2 : 1); ++moved)
    {
        auto with = [&](Use const &f) { build(mods.data(), mods.size(), moved != 0, f); };
        for (State const &st : sts)
            for (int target = 0; target < 2; ++target)
            {
                bool const good = st.state == std::ios::goodbit;
                auto &stream = [&]() -> std::ostream & { return target ? std::cerr : std::cout; }();
                auto &other = [&]() -> std::ostream & { return target ? std::cout : std::cerr; }();
                for (int value = 0; value < values; ++value)
                {
                    // one expression
                    with([&](Make const &make) {
                        Caught caught;
                        set(stream, st);
                        std::ostringstream ref;
                        std::string const text = plain_of(st, {value}, ref);
                        put(stream << make(), value);
                        if (!same_format(stream, ref)) r.fail("C32/format state", "%s on %s changes the formatting state of the stream", what.c_str(), kTargets[target]);
                        std::vector<Cell> cells;
                        append(cells, text, attr);
                        expect(r, "C32/inline", what + " on " + kTargets[target], caught(target), cells, good ? moves(mods, 0) : std::vector<Move>());
                        if (!caught(!target).empty()) r.fail("C32/inline", "%s on %s writes to the other stream", what.c_str(), kTargets[target]);
                        ++n;
                    });
                    if (value > 1) continue;
                    // one that only moves the cursor leaves the styles of others alone
                    if (std::none_of(mods.begin(), mods.end(), [](M const &m) { return m.type < 3; }))
                        with([&](Make const &make) {
                            Caught caught;
                            set(stream, st);
                            std::ostringstream ref;
                            std::string const t0 = plain_of(st, {value}, ref);
                            put(ref, value);
                            put(ref, Text);
                            std::string const t1 = ref.str().substr(t0.size());
                            {
                                Styler outer(Style::Bold, Color(static_cast<std::uint8_t>(5)));
                                put(stream << outer, value);
                                put(stream << make(), value);
                                put(stream, Text);
                            }
                            std::vector<Cell> cells;
                            Attr const bold {1u << 1, 5, -1};
                            append(cells, t0 + t1, bold);
                            expect(r, "C32/within", what + " within another styler, on " + kTargets[target], caught(target), cells, good ? moves(mods, t0.size()) : std::vector<Move>());
                            ++n;
                        });
                    // kept, text before, within and after
                    with([&](Make const &make) {
                        Caught caught;
                        set(stream, st);
                        std::ostringstream ref;
                        plain_of(st, {value}, ref);
                        std::string const t0 = ref.str();
                        put(ref, value);
                        put(ref, Bool);
                        std::string const t1 = ref.str().substr(t0.size());
                        put(ref, Text);
                        std::string const t2 = ref.str().substr(t0.size() + t1.size());
                        {
                            auto styler = make();
                            put(stream, value);
                            put(stream << styler, value);
                            put(stream, Bool);
                        }
                        put(stream, Text);
                        if (!same_format(stream, ref)) r.fail("C32/format state", "%s on %s changes the formatting state of the stream", what.c_str(), kTargets[target]);
                        std::vector<Cell> cells;
                        append(cells, t0, {});
                        append(cells, t1, attr);
                        append(cells, t2, {});
                        expect(r, "C32/kept", what + " kept, on " + kTargets[target], caught(target), cells, good ? moves(mods, t0.size()) : std::vector<Move>());
                        ++n;
                    });
                    // streamed again, on the same stream
                    with([&](Make const &make) {
                        Caught caught;
                        set(stream, st);
                        std::ostringstream ref;
                        std::string const t1 = plain_of(st, {value}, ref);
                        put(ref, Text);
                        std::string const t2 = ref.str().substr(t1.size());
                        {
                            auto styler = make();
                            put(stream << styler, value);
                            put(stream << styler, Text);
                        }
                        std::vector<Cell> cells;
                        append(cells, t1, attr);
                        append(cells, t2, attr);
                        auto mv = moves(mods, 0);
                        add(mv, moves(mods, t1.size()));
                        if (!good) mv.clear();
                        expect(r, "C32/streamed again", what + " streamed twice on " + kTargets[target], caught(target), cells, mv);
                        ++n;
                    });
                    // streamed again, on the other stream, and on one that is neither
                    with([&](Make const &make) {
                        Caught caught;
                        set(stream, st);
                        set(other, {std::ios::dec, 0, ' ', false, std::ios::goodbit});
                        std::ostringstream ref, neither, neither_ref;
                        std::string const t1 = plain_of(st, {value}, ref);
                        std::string const t2 = plain_of(st, {value, Text}, neither_ref);
                        set(neither, st);
                        {
                            auto styler = make();
                            auto now = std::move(styler);
                            put(stream << now, value);
                            put(neither << now, value);
                            put(neither, Text);
                            put(other << now, Text);
                        }
                        std::vector<Cell> cells, others;
                        append(cells, t1, attr);
                        append(others, "text 12", attr);
                        std::string const w = what + " streamed on " + kTargets[target] + ", a string stream and " + kTargets[!target];
                        expect(r, "C32/two streams", w, caught(target), cells, good ? moves(mods, 0) : std::vector<Move>());
                        expect(r, "C32/two streams", w, caught(!target), others, moves(mods, 0));
                        if (neither.str() != t2 || !same_format(neither, neither_ref)) r.fail("C32/other streams", "%s: a string stream gets more than the text", what.c_str());
                        ++n;
                    });
                }
            }
    }
    r.evaluations(n);
    r.transitions(n);
    r.nontrivial();
    r.state(mc::hash_str(what));
    if (r.want_sample(400)) r.sample("%s: %zu states of the stream, in one expression, kept, streamed twice, on two streams", what.c_str(), sts.size());
}

// ---------------------------------------------------------------------------------------- the console logger
std::string time_text(std::time_t t)
{
    std::tm v {};
    localtime_r(&t, &v);
    char b[40];
    std::snprintf(b, sizeof b, "%02d-%02d-%04d %02d:%02d:%02d", v.tm_mon + 1, v.tm_mday, v.tm_year + 1900, v.tm_hour, v.tm_min, v.tm_sec);
    return b;
}
struct Record
{
    int level;
    int trace;
    int message;
};
Trace const kTraces[] = {{}, {"file.cpp", "function", 42}, {"/a/b c.cpp", "operator{}", 4294967295u}, {"", "function", 3}, {"file.cpp", "", 3}};
constexpr char const *kTraceTexts[] = {"", "file.cpp:function:42", "/a/b c.cpp:operator{}:4294967295", "", ""};
std::string message(int i)
{
    switch (i)
    {
        case 0: return "";
        case 1: return "a message";
        case 2: return "{} {{}} %d";
        case 3: return std::string("zero \0 within", 13);
        case 4: return "\xe2\x82\xac \xff";
        case 5: return std::string(200, 'x');
        default: return "two\nlines\t";
    }
}
constexpr int kMessages = 7;
char const *const kLevels[] = {"debug", "info", "warn", "error"};

void log(Logger &logger, Record const &rec)
{
    std::string const m = message(rec.message);
    Trace const &t = kTraces[rec.trace];
    Trace copy = t;
    bool const traced = rec.trace != 0;
    switch (rec.level)
    {
        case 0: traced ? logger.debug(std::move(copy), "{}", m) : logger.debug("{}", m); break;
        case 1: traced ? logger.info(std::move(copy), "{}", m) : logger.info("{}", m); break;
        case 2: traced ? logger.warn(std::move(copy), "{}", m) : logger.warn("{}", m); break;
        default: traced ? logger.error(std::move(copy), "{}", m) : logger.error("{}", m); break;
    }
}

void console(mc::Run &r, std::vector<Record> const &records, State const &st)
{
    auto logger = create_console_logger("console", std::make_shared<LoggerConfig>());
    if (!logger) { r.fail("C32/console", "there is no console logger"); return; }
    Caught caught;
    set(std::cout, st);
    set(std::cerr, st);
    std::string what;
    std::time_t const before = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
    for (auto const &rec : records)
    {
        what += std::string(what.empty() ? "" : ", ") + kLevels[rec.level] + " \"" + message(rec.message).substr(0, 12) + "\"";
        log(*logger, rec);
    }
    std::time_t const after = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
    for (int target = 0; target < 2; ++target)
    {
        std::string const raw = caught(target);
        Screen s;
        s.read(raw);
        std::vector<Cell> cells;
        for (auto const &rec : records)
        {
            if ((rec.level >= 2) != (target == 1)) continue;
            Attr heading;
            if (rec.level == 1) heading.fg = Color::Green;
            if (rec.level == 2) heading.fg = Color::Yellow;
            if (rec.level == 3) { heading.fg = Color::Red; heading.styles = 1u << 1; }
            std::string time = time_text(before);
            std::string shown;
            for (std::size_t i = cells.size(); i < s.cells.size() && shown.size() < time.size(); ++i) shown += s.cells[i].c;
            for (std::time_t t = before; t <= after; ++t) if (shown == time_text(t)) time = shown;
            append(cells, time + " " + kTraceTexts[rec.trace], heading);
            append(cells, ": " + message(rec.message) + "\n", {});
        }
        expect(r, "C32/console", std::string("on ") + kTargets[target] + " after " + what, raw, cells, {});
    }
    r.transitions(records.size());
    r.nontrivial();
    if (r.want_sample(300)) r.sample("console: %s", what.c_str());
}

void macros(mc::Run &r)
{
    Caught caught;
    errno = ENOENT;
    std::time_t const before = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
    std::uint32_t const line = __LINE__;
    LOGD("d {}", 1);
    LOGI("i {}", 2);
    LOGW("w {}", 3);
    errno = ENOENT; LOGS("s {}", 4);
    LOGE("e {}", 5);
    std::time_t const after = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
    for (int target = 0; target < 2; ++target)
    {
        std::string raw = caught(target);
        Screen s;
        s.read(raw);
        std::string text;
        for (auto const &c : s.cells) text += c.c;
        std::string want;
        bool good = false;
        for (std::time_t t = before; t <= after && !good; ++t)
        {
            auto head = [&](std::uint32_t n) { return time_text(t) + " " + __FILE__ + ":macros:" + std::to_string(line + n) + ": "; };
            want = target == 0 ? head(1) + "d 1\n" + head(2) + "i 2\n" : head(3) + "w 3\n" + head(4) + "s 4: " + fly::system::get_error_string(ENOENT) + "\n" + head(5) + "e 5\n";
            good = want == text;
        }
        if (!good && before == after) r.fail("C32/macros", "the macros write to %s: %s", kTargets[target], text.c_str());
    }
    r.nontrivial();
}

} // namespace

void enumerate(mc::Run &r)
{
    auto const all = states(true), few = states(false);
    r.section("one modifier");
    std::vector<M> singles;
    for (int i = 0; i < 7; ++i) singles.push_back({0, i, 0});
    for (int c = 0; c < 256; ++c) for (int p = 0; p < 2; ++p) singles.push_back({1, c, p});
    for (int c = 0; c < 8; ++c) singles.push_back({2, c, 0});
    for (int d = 0; d < 4; ++d) for (int n = 0; n < 256; ++n) singles.push_back({3, d, n});
    for (int d = 0; d < 4; ++d) singles.push_back({4, d, 0});
    for (auto const &m : singles)
    {
        if (!r.take()) continue;
        bool const some = m.type == 0 || m.type == 2 || m.type == 4 || m.a == 255 || m.b == 255 || (m.type == 1 && (m.a < 16 || m.a == 100));
        use(r, {m}, some || r.thorough() ? all : few, some || r.thorough() ? kValues : 2);
    }
    r.section("two modifiers");
    std::vector<M> some;
    for (int i = 0; i < 7; ++i) some.push_back({0, i, 0});
    for (int c : {1, 7, 8, 200}) for (int p = 0; p < 2; ++p) some.push_back({1, c, p});
    for (int c : {0, 2, 7}) some.push_back({2, c, 0});
    for (int d = 0; d < 4; ++d) some.push_back({3, d, d * 85});
    for (int d = 0; d < 4; ++d) some.push_back({4, d, 0});
    for (auto const &a : some)
        for (auto const &b : some)
        {
            if (!r.take()) continue;
            use(r, {a, b}, all, r.thorough() ? kValues : 2);
        }
    r.section("three modifiers");
    for (auto const &a : some)
        for (auto const &b : some)
            for (auto const &c : some)
            {
                if (!r.take()) continue;
                use(r, {a, b, c}, r.thorough() ? all : few, r.thorough() ? 2 : 1);
            }
    r.section("console logger, one record");
    std::vector<State> flat;
    for (auto const &st : all) if (st.width == 0 && st.state == std::ios::goodbit) flat.push_back(st);
    for (int level = 0; level < 4; ++level)
        for (int trace = 0; trace < 5; ++trace)
            for (int msg = 0; msg < kMessages; ++msg)
                for (auto const &st : flat)
                {
                    if (!r.take()) continue;
                    console(r, {{level, trace, msg}}, st);
                }
    r.section("console logger, several records");
    for (int length = 2; length <= (r.thorough() ? 4 : 3); ++length)
    {
        int total = 1;
        for (int i = 0; i < length; ++i) total *= 16;
        for (int v = 0; v < total; ++v)
        {
            if (!r.take()) continue;
            std::vector<Record> recs;
            for (int i = 0, x = v; i < length; ++i, x /= 16) recs.push_back({x % 4, (x / 4) % 2, 1 + (x / 8) % 2 * 5});
            console(r, recs, flat[static_cast<std::size_t>(v) % flat.size()]);
        }
    }
    r.section("macros");
    if (r.take()) macros(r);
}
