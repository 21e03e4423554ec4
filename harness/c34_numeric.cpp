// C34: integer literals and byte order conversions.  Every literal of a space is given to the compiler: those that
// fit are compiled into a table of values, those that do not have to be refused, one by one.
#include "fly/types/numeric/endian.hpp"
#include "fly/types/numeric/literals.hpp"
#include "mc_enum.hpp"

#include <bit>
#include <cstring>
#include <fstream>
#include <limits>
#include <sstream>

namespace {

using u128 = unsigned __int128;

// ---------------------------------------------------------------------------------------- literals
struct Type
{
    char const *suffix;
    char const *type;
    u128 max;
};
constexpr Type kTypes[] = {
    {"_i8", "std::int8_t", 127}, {"_u8", "std::uint8_t", 255}, {"_i16", "std::int16_t", 32767}, {"_u16", "std::uint16_t", 65535},
    {"_i32", "std::int32_t", 2147483647}, {"_u32", "std::uint32_t", 4294967295u}, {"_i64", "std::int64_t", 9223372036854775807ull},
    {"_u64", "std::uint64_t", 18446744073709551615ull}, {"_zu", "std::size_t", 18446744073709551615ull}};

std::string digits(u128 v, int base, bool upper)
{
    std::string s;
    do
    {
        int const d = static_cast<int>(v % static_cast<unsigned>(base));
        s += static_cast<char>(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
        v /= static_cast<unsigned>(base);
    } while (v != 0);
    return {s.rbegin(), s.rend()};
}
std::string separated(std::string const &d, int every)
{
    std::string s;
    for (std::size_t i = 0; i < d.size(); ++i)
    {
        if (i != 0 && (d.size() - i) % static_cast<std::size_t>(every) == 0) s += '\'';
        s += d[i];
    }
    return s;
}
struct Literal
{
    std::string text;
    bool fits;
    u128 value;
};

// every spelling of one value
void spell(std::vector<Literal> &out, Type const &t, u128 v, bool all)
{
    bool const fits = v <= t.max;
    auto add = [&](std::string const &s) { out.push_back({s, fits, v}); };
    add(digits(v, 10, false));
    add("0x" + digits(v, 16, false));
    add("0" + digits(v, 8, false));
    add("0b" + digits(v, 2, false));
    if (!all) return;
    add("0X" + digits(v, 16, true));
    add("0B" + digits(v, 2, false));
    add("0x00" + digits(v, 16, true));
    add("000" + digits(v, 8, false));
    add("0b0000000" + digits(v, 2, false));
    for (int every : {1, 3})
    {
        if (v >= 10) add(separated(digits(v, 10, false), every));
        add("0x" + separated(digits(v, 16, every == 1), every));
        add("0" + separated("0" + digits(v, 8, false), every));
        add("0b" + separated(digits(v, 2, false), every + 1));
    }
}

std::vector<Literal> space(Type const &t, bool thorough)
{
    std::vector<Literal> out;
    u128 const dense = t.max < 256 ? 600 : 40;
    for (u128 v = 0; v <= dense; ++v) spell(out, t, v, v < 20 || thorough);
    std::vector<u128> at {t.max, t.max * 2 + 1, t.max * 10};
    for (int bit = 6; bit < 100; ++bit) at.push_back(u128(1) << bit);
    for (u128 p = 100; p < (u128(1) << 100); p *= 10) at.push_back(p);
    for (int k : {2, 3, 7, 255}) at.push_back((u128(1) << 64) * static_cast<unsigned>(k));
    for (u128 low : {u128(5), u128(127), u128(200), u128(65535)}) at.push_back((u128(1) << 64) + low);
    for (u128 v : at)
        for (int d = -2; d <= 2; ++d) spell(out, t, v + static_cast<u128>(static_cast<__int128>(d)), d == 0 || v == t.max || thorough);
    // no integers at all
    for (char const *s : {"08", "09", "018", "0'8", "00'9", "0b2", "0b12", "0b1'2", "1.5", "1.", ".5", "1e3", "1E3", "0x1p3", "0x1.8p1", "1e+3", "0.0"}) out.push_back({s, false, 0});
    std::vector<Literal> unique;
    std::set<std::string> seen;
    for (auto &l : out) if (seen.insert(l.text).second) unique.push_back(l);
    return unique;
}

std::string run(std::string const &command, int &rc)
{
    std::string out;
    FILE *p = popen(command.c_str(), "r");
    if (p == nullptr) std::abort();
    char b[4096];
    std::size_t n;
    while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n);
    rc = pclose(p);
    return out;
}
std::string text128(u128 v) { return digits(v, 10, false); }

constexpr char kHead[] = "#include \"fly/logger/styler.hpp\"\n#include \"fly/types/numeric/literals.hpp\"\nusing namespace fly::literals::numeric_literals; using namespace fly::literals::styler_literals;\n";
constexpr int kHeadLines = 3;

void fitting(mc::Run &r, Type const &t, std::vector<Literal> const &ls, std::uint64_t id)
{
    std::string const base = std::string(std::getenv("MC_WORK")) + "/lit" + std::to_string(id);
    {
        std::ofstream f(base + ".cpp");
        f << kHead;
        for (auto const &l : ls)
        {
            f << "static_assert(" << l.text << t.suffix << " == " << text128(l.value) << "ull && __is_same(decltype(" << l.text << t.suffix << "), " << t.type << "));";
            if (l.value <= 255) f << " static_assert((" << l.text << "_c).m_color == " << text128(l.value) << " && (" << l.text << "_c).m_plane == fly::logger::Color::Foreground);";
            f << '\n';
        }
    }
    int rc = 0;
    std::string const out = run("g++ -std=c++20 -w -fpermissive -I" REPO_DIR " -fsyntax-only -fno-diagnostics-show-caret " + base + ".cpp 2>&1", rc);
    std::string const mark = base + ".cpp:";
    std::set<int> blamed;
    for (std::size_t i = 0; (i = out.find(mark, i)) != std::string::npos; i += mark.size()) blamed.insert(std::atoi(out.c_str() + i + mark.size()) - kHeadLines - 1);
    for (int b : blamed)
        if (b >= 0 && b < static_cast<int>(ls.size())) r.fail("C34/literal value", "%s%s is not %s of type %s (or no literal at all)", ls[static_cast<std::size_t>(b)].text.c_str(), t.suffix, text128(ls[static_cast<std::size_t>(b)].value).c_str(), t.type);
    if (rc != 0 && blamed.empty()) r.fail("C34/compiler", "the literals cannot be compiled: %.300s", out.c_str());
    unlink((base + ".cpp").c_str());
    r.evaluations(ls.size() - 1);
    r.transitions(ls.size());
    r.nontrivial(ls.size());
}
void not_fitting(mc::Run &r, Type const &t, std::vector<Literal> const &ls, std::uint64_t id)
{
    std::string const base = std::string(std::getenv("MC_WORK")) + "/lit" + std::to_string(id);
    {
        std::ofstream f(base + ".cpp");
        f << kHead;
        for (std::size_t i = 0; i < ls.size(); ++i) f << "constexpr auto v" << i << " = " << ls[i].text << t.suffix << ";\n";
        f << "constexpr auto control = 1" << t.suffix << ";\n";
    }
    int rc = 0;
    std::string const out = run("g++ -std=c++20 -w -I" REPO_DIR " -fsyntax-only -fmax-errors=0 -ftemplate-backtrace-limit=0 -fno-diagnostics-show-caret " + base + ".cpp 2>&1", rc);
    std::string const mark = base + ".cpp:";
    std::set<int> blamed;
    for (std::size_t i = 0; (i = out.find(mark, i)) != std::string::npos; i += mark.size()) blamed.insert(std::atoi(out.c_str() + i + mark.size()) - kHeadLines - 1);
    for (std::size_t i = 0; i < ls.size(); ++i)
        if (!blamed.contains(static_cast<int>(i))) r.fail("C34/literal refused", "%s%s is accepted although it is no value of %s", ls[i].text.c_str(), t.suffix, t.type);
    if (blamed.contains(static_cast<int>(ls.size()))) r.fail("C34/compiler", "1%s is refused: %.300s", t.suffix, out.c_str());
    unlink((base + ".cpp").c_str());
    r.evaluations(ls.size() - 1);
    r.transitions(ls.size());
    r.nontrivial(ls.size());
}

// ---------------------------------------------------------------------------------------- byte order
template <typename T>
T reversed(T value)
{
    unsigned char b[sizeof(T)], c[sizeof(T)];
    std::memcpy(b, &value, sizeof b);
    for (std::size_t i = 0; i < sizeof b; ++i) c[i] = b[sizeof b - 1 - i];
    std::memcpy(&value, c, sizeof c);
    return value;
}
template <typename T>
bool swap_ok(T v)
{
    T const swapped = fly::endian_swap(v);
    T const want = reversed(v);
    constexpr auto other = std::endian::native == std::endian::little ? std::endian::big : std::endian::little;
    return swapped == want && fly::endian_swap(swapped) == v && fly::endian_swap_if_non_native<std::endian::native>(v) == v && fly::endian_swap_if_non_native<other>(v) == want;
}
template <typename T>
void swap_all(mc::Run &r, char const *name, std::uint64_t from, std::uint64_t to)
{
    for (std::uint64_t i = from; i < to; ++i)
    {
        T const v = static_cast<T>(i);
        if (!swap_ok(v)) { r.fail(std::string("C34/swap ") + name, "endian_swap<%s>(%llx) is %llx", name, static_cast<unsigned long long>(i), static_cast<unsigned long long>(fly::endian_swap(v))); break; }
        if ((i & 0xffffff) == 0) r.heartbeat();
    }
    r.evaluations(to - from - 1);
    r.transitions(to - from);
    r.nontrivial(to - from);
}
// all pairs of bytes at all pairs of places over several backgrounds
template <typename T>
void swap_pairs(mc::Run &r, char const *name, unsigned place)
{
    std::uint64_t n = 0;
    for (std::uint64_t back : {0ull, ~0ull, 0x0123456789abcdefull, 0x8040201008040201ull})
        for (unsigned other = 0; other < sizeof(T); ++other)
            for (unsigned a = 0; a < 256; ++a)
                for (unsigned b = 0; b < 256; ++b)
                {
                    std::uint64_t v = back;
                    v = (v & ~(0xffull << (8 * other))) | (std::uint64_t(b) << (8 * other));
                    v = (v & ~(0xffull << (8 * place))) | (std::uint64_t(a) << (8 * place));
                    ++n;
                    if (!swap_ok(static_cast<T>(v))) { r.fail(std::string("C34/swap ") + name, "endian_swap<%s>(%llx)", name, static_cast<unsigned long long>(v)); return; }
                }
    r.evaluations(n - 1);
    r.transitions(n);
    r.nontrivial(n);
}
enum class Never { };
template <typename T>
constexpr bool swappable = requires(T v) { fly::endian_swap(v); };

// at compile time
template <typename T, T V, T W>
constexpr bool constant() { static_assert(fly::endian_swap(V) == W); return fly::endian_swap(W) == V; }

} // namespace

void enumerate(mc::Run &r)
{
    r.section("literals");
    std::uint64_t id = 0;
    for (auto const &t : kTypes)
    {
        auto const all = space(t, r.thorough());
        for (int fits = 0; fits < 2; ++fits)
        {
            std::vector<Literal> part;
            for (std::size_t i = 0; i <= all.size(); ++i)
            {
                if (i < all.size() && all[i].fits == (fits != 0)) part.push_back(all[i]);
                if ((i == all.size() && !part.empty()) || part.size() == 150)
                {
                    ++id;
                    if (r.take())
                    {
                        if (fits) fitting(r, t, part, id); else not_fitting(r, t, part, id);
                        for (auto const &l : part) r.state(mc::hash_str(l.text + t.suffix));
                        if (r.want_sample(20)) r.sample("%zu literals like %s%s: %s", part.size(), part.front().text.c_str(), t.suffix, fits ? "fit" : "are refused");
                    }
                    part.clear();
                }
            }
        }
    }
    r.section("byte order");
    if (r.take()) swap_all<std::uint8_t>(r, "uint8", 0, 256);
    if (r.take()) swap_all<std::int8_t>(r, "int8", 0, 256);
    if (r.take()) swap_all<char>(r, "char", 0, 256);
    if (r.take()) swap_all<char8_t>(r, "char8", 0, 256);
    if (r.take()) swap_all<std::uint16_t>(r, "uint16", 0, 65536);
    if (r.take()) swap_all<std::int16_t>(r, "int16", 0, 65536);
    if (r.take()) swap_all<char16_t>(r, "char16", 0, 65536);
    for (std::uint64_t part = 0; part < 64; ++part)
    {
        std::uint64_t const step = 1ull << 26;
        if (r.take()) swap_all<std::uint32_t>(r, "uint32", part * step, (part + 1) * step);
        if (r.take()) swap_all<std::int32_t>(r, "int32", part * step, (part + 1) * step);
        if (!r.thorough()) continue;
        if (r.take()) swap_all<char32_t>(r, "char32", part * step, (part + 1) * step);
        if (r.take()) swap_all<wchar_t>(r, "wchar", part * step, (part + 1) * step);
    }
    for (unsigned place = 0; place < 8; ++place)
    {
        if (r.take()) swap_pairs<std::uint64_t>(r, "uint64", place);
        if (r.take()) swap_pairs<std::int64_t>(r, "int64", place);
        if (r.take()) swap_pairs<unsigned long long>(r, "unsigned long long", place);
        if (place < 4)
        {
            if (r.take()) swap_pairs<char32_t>(r, "char32", place);
            if (r.take()) swap_pairs<wchar_t>(r, "wchar", place);
        }
    }
    r.section("constants");
    if (r.take())
    {
        bool const ok = constant<std::uint8_t, 0x12, 0x12>() && constant<std::uint16_t, 0x1234, 0x3412>() && constant<std::uint32_t, 0x12345678, 0x78563412>() &&
            constant<std::uint64_t, 0x123456789abcdef0ull, 0xf0debc9a78563412ull>() && constant<std::int16_t, 0x00ff, static_cast<std::int16_t>(0xff00)>() && constant<std::int32_t, 0x80, static_cast<std::int32_t>(0x80000000)>();
        if (!ok) r.fail("C34/swap constants", "swapping at compile time differs");
        if (swappable<float> || swappable<double> || swappable<void *> || swappable<Never>) r.fail("C34/swap types", "a type that is no integer can be swapped");
    }
}
