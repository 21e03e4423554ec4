// C21: text -> number conversion is exact or refused; lexer number reading and bounded peeking.
#include "fly/types/string/lexer.hpp"
#include "fly/types/string/string.hpp"
#include "gen.hpp"
#include "mc_enum.hpp"

#include <cmath>
#include <limits>

using gen::W;
using mc::show;

// Independent reading of decimal text with 128 bit arithmetic: optional minus (signed targets only), digits.
template <typename T, typename C>
static std::optional<T> ref_int(std::basic_string<C> const &s)
{
    std::size_t i = 0;
    bool neg = false;
    if (std::is_signed_v<T> && i < s.size() && s[i] == C('-')) { neg = true; ++i; }
    if (i == s.size()) return {};
    __int128 v = 0;
    for (; i < s.size(); ++i)
    {
        if (s[i] < C('0') || s[i] > C('9')) return {};
        v = v * 10 + static_cast<int>(s[i] - C('0'));
        if (v > (static_cast<__int128>(1) << 100)) v = static_cast<__int128>(1) << 100;
    }
    if (neg) v = -v;
    if (v < static_cast<__int128>(std::numeric_limits<T>::min()) || v > static_cast<__int128>(std::numeric_limits<T>::max())) return {};
    return static_cast<T>(v);
}

template <typename T, typename C>
static void one_int(mc::Run &r, std::basic_string<C> const &s)
{
    auto const want = ref_int<T>(s);
    auto const got = fly::BasicString<C>::template convert<T>(s);
    if (want) r.nontrivial();
    if (want != got)
        r.fail(std::string("int:") + gen::cname<C>(), "convert<%d byte %s>(%s): got %s%lld, expected %s%lld", (int)sizeof(T), std::is_signed_v<T> ? "signed" : "unsigned", show(s).c_str(),
               got ? "" : "nothing ", (long long)got.value_or(0), want ? "" : "nothing ", (long long)want.value_or(0));
}
template <typename C>
static void all_ints(mc::Run &r, std::basic_string<C> const &s)
{
    r.transitions(8);
    r.state(mc::hash_mix(s.size(), s.empty() ? 0 : static_cast<std::uint64_t>(s.back())));
    one_int<std::int8_t>(r, s); one_int<std::uint8_t>(r, s); one_int<std::int16_t>(r, s); one_int<std::uint16_t>(r, s);
    one_int<std::int32_t>(r, s); one_int<std::uint32_t>(r, s); one_int<std::int64_t>(r, s); one_int<std::uint64_t>(r, s);
}

static std::string dec(__int128 v)
{
    bool neg = v < 0;
    std::string s;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10))); u /= 10; } while (u);
    if (neg) s.insert(s.begin(), '-');
    return s;
}

static int ref_float_shape(std::string const &s)
{
    // 1: number, 0: not a number, -1: not asserted (infinities and NaN spellings)
    if (s.find_first_of("infINFnaNAxX(") != std::string::npos) return -1;
    std::size_t i = 0;
    if (i < s.size() && s[i] == '-') ++i;
    std::size_t digits = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++digits; }
    if (i < s.size() && s[i] == '.')
    {
        ++i;
        while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++digits; }
    }
    if (!digits) return 0;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
    {
        ++i;
        if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
        std::size_t e = 0;
        while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++e; }
        if (!e) return 0;
    }
    return i == s.size();
}
template <typename T, typename C>
static void one_float(mc::Run &r, std::string const &s)
{
    r.transitions();
    int const shape = ref_float_shape(s);
    if (shape < 0) return;
    auto const got = fly::BasicString<C>::template convert<T>(W<C>(s));
    if (shape == 0)
    {
        if (got) r.fail("float:accepted", "convert<float %d>(%s) accepted as %Lg", (int)sizeof(T), show(s).c_str(), (long double)*got);
        return;
    }
    r.nontrivial();
    T want;
    if constexpr (sizeof(T) == 4) want = std::strtof(s.c_str(), nullptr);
    else if constexpr (sizeof(T) == 8) want = std::strtod(s.c_str(), nullptr);
    else want = std::strtold(s.c_str(), nullptr);
    if (std::isinf(want))
    {
        if (got && !std::isinf(*got)) r.fail("float:range", "convert(%s) out of range gave %Lg", s.c_str(), (long double)*got);
        return;
    }
    bool const zero_digits = s.find_first_of("123456789") >= s.find_first_of("eE"); // mantissa all zero
    if (!zero_digits && std::fabs(want) < std::numeric_limits<T>::min()) return; // underflow: either is fine
    if (!got || std::memcmp(&*got, &want, sizeof(T) == 16 ? 10 : sizeof(T)) != 0)
        r.fail("float:value", "convert<float %d>(%s): got %s%.20Lg expected %.20Lg", (int)sizeof(T), show(s).c_str(), got ? "" : "nothing ", (long double)got.value_or(0), (long double)want);
}

template <typename C>
static void lexers(mc::Run &r)
{
    using L = fly::BasicLexer<C>;
    using str = std::basic_string<C>;
    r.section("lexer");
    str alpha = W<C>("09aFgG /:");
    alpha += static_cast<C>(0xe9);
    auto texts = gen::strings(alpha, 0, r.thorough() ? 5 : 4).all();
    for (std::string t : {"18446744073709551615", "18446744073709551616", "18446744073709551617", "184467440737095516150", "99999999999999999999999999", "00000000000000000000000000000000001", "340282366920938463463374607431768211457"})
    {
        texts.push_back(W<C>(t));
        texts.push_back(W<C>(t + "x"));
        texts.push_back(W<C>("a" + t));
    }
    for (std::string t : {"ffffffffffffffff", "FFFFFFFFFFFFFFFF", "10000000000000000", "10000000000000001", "fffffffffffffffff", "0000000000000000000000f", "100000000000000000000000000000001"})
    {
        texts.push_back(W<C>(t));
        texts.push_back(W<C>(t + "g"));
    }
    for (auto const &s : texts)
    {
        if (!r.take()) continue;
        r.transitions(2);
        for (int base : {10, 16})
        {
            for (std::size_t pos : {std::size_t(0), std::size_t(1), s.size(), s.size() + 1})
            {
                L l {std::basic_string_view<C>(s)};
                l.set_position(pos);
                unsigned __int128 v = 0;
                std::size_t i = pos, n = 0;
                bool over = false;
                for (; i < s.size(); ++i, ++n)
                {
                    long c = static_cast<long>(s[i]);
                    int d = (c >= 48 && c <= 57) ? int(c - 48) : (base == 16 && c >= 65 && c <= 70) ? int(c - 55) : (base == 16 && c >= 97 && c <= 102) ? int(c - 87) : -1;
                    if (d < 0) break;
                    v = v * static_cast<unsigned>(base) + static_cast<unsigned>(d);
                    if (v > UINT64_MAX) { over = true; v = static_cast<unsigned __int128>(1) << 64; }
                }
                std::optional<std::uintmax_t> want;
                if (n && !over) want = static_cast<std::uintmax_t>(v);
                if (n) r.nontrivial();
                auto const got = base == 10 ? l.consume_number() : l.consume_hex_number();
                if (got != want || (!over && l.position() != i))
                    r.fail(std::string("lexer:") + (over ? "overflow" : "number"), "base %d of %s at %zu: got %s%llu at %zu, expected %s%llu at %zu", base, show(s).c_str(), pos, got ? "" : "nothing ",
                           (unsigned long long)got.value_or(0), l.position(), want ? "" : "nothing ", (unsigned long long)want.value_or(0), i);
            }
        }
        // peek / consume / consume_if never leave the text
        for (std::size_t pos = 0; pos <= s.size() + 1; ++pos)
            for (std::size_t off : {std::size_t(0), std::size_t(1), std::size_t(2), s.size(), s.size() + 1, SIZE_MAX, SIZE_MAX - 1})
            {
                L l {std::basic_string_view<C>(s)};
                l.set_position(pos);
                std::optional<C> want;
                if (pos < s.size() && off < s.size() - pos) want = s[pos + off];
                if (l.peek(off) != want) r.fail("lexer:peek", "peek(%zu) at %zu of %s", off, pos, show(s).c_str());
                if (off == 0)
                {
                    L m {std::basic_string_view<C>(s)};
                    m.set_position(pos);
                    if (m.consume() != want || m.position() != pos + (want ? 1 : 0)) r.fail("lexer:consume", "consume at %zu of %s", pos, show(s).c_str());
                    L k {std::basic_string_view<C>(s)};
                    k.set_position(pos);
                    bool const is = want && *want == C('a');
                    if (k.consume_if(C('a')) != is || k.position() != pos + (is ? 1 : 0)) r.fail("lexer:consume_if", "consume_if at %zu of %s", pos, show(s).c_str());
                }
            }
    }
}

void enumerate(mc::Run &r)
{
    gen::each_char_type([&]<typename C>() {
        using str = std::basic_string<C>;
        bool const full = std::is_same_v<C, char> || r.thorough();
        r.section("int:short texts");
        str alpha = W<C>("0129-+ .x");
        if constexpr (sizeof(C) > 1) alpha += static_cast<C>(0x0131); // low byte is '1'
        gen::strings(alpha, 0, full ? 5 : 4).each([&](str const &s) { if (r.take()) all_ints<C>(r, s); });
        if constexpr (sizeof(C) > 1)
            for (std::uint32_t hi = 0x100; hi != 0 && hi <= 0x100000 && (sizeof(C) > 2 || hi < 0x10000); hi <<= 1)
                for (int d = 0; d < 10; ++d)
                    if (r.take())
                    {
                        all_ints<C>(r, str(1, static_cast<C>(hi + 48u + static_cast<unsigned>(d))));
                        all_ints<C>(r, W<C>("1") + str(1, static_cast<C>(hi + 48u + static_cast<unsigned>(d))));
                    }
        r.section("int:every small value");
        for (int v = -70000; v <= 70000; v += full ? 1 : 37)
            if (r.take()) all_ints<C>(r, W<C>(std::to_string(v)));
        r.section("int:limits");
        for (int bits : {7, 8, 15, 16, 31, 32, 63, 64})
            for (int d = -3; d <= 3; ++d)
                for (int sg : {1, -1})
                    for (std::string pre : {"", "0", "000", "+", " ", "--"})
                        for (std::string post : {"", "0", "00", "000000000000000000000000", " ", "a", ".", ".0", "e0", std::string(1, '\0').c_str()})
                            if (r.take()) all_ints<C>(r, W<C>(pre + dec(((static_cast<__int128>(1) << bits) + d) * sg) + post));
        if (r.take()) all_ints<C>(r, W<C>("12") + str(1, C(0)));
        r.section("float");
        gen::strings(std::string("019-+.eE "), 0, full ? 5 : 4).each([&](std::string const &s) {
            if (r.take()) { one_float<double, C>(r, s); one_float<float, C>(r, s); one_float<long double, C>(r, s); }
        });
        for (char const *m : {"0", "1", "9", "1.7976931348623157", "1.7976931348623158", "1.7976931348623159", "3.4028234663852886", "3.4028235677973366", "2.2250738585072014", "4.9406564584124654", "9007199254740993", "0.1", "123456789012345678901234567890", "0.30000000000000004", "8.5070586659632215"})
            for (int e = -330; e <= 330; e += r.thorough() ? 1 : 3)
                for (char const *tail : {"", " ", "f", "e1"})
                    if (r.take())
                    {
                        std::string s = std::string(m) + "e" + std::to_string(e) + tail;
                        one_float<double, C>(r, s); one_float<float, C>(r, s); one_float<long double, C>(r, s);
                        one_float<double, C>(r, "-" + s);
                    }
        r.section("one edit");
        {
            str every;
            for (std::uint32_t c = 0; c < (sizeof(C) > 1 ? 0x180u : 0x100u); ++c) every += static_cast<C>(c);
            auto edits = [&](std::string const &text, auto const &f) {
                str const s = W<C>(text);
                for (std::size_t i = 0; i <= s.size(); ++i)
                {
                    if (i < s.size() && r.take()) f(str(s.substr(0, i) + s.substr(i + 1)));
                    for (C c : every)
                    {
                        if (r.take()) f(str(s.substr(0, i) + c + s.substr(i)));
                        if (i < s.size() && s[i] != c && r.take()) f(str(s.substr(0, i) + c + s.substr(i + 1)));
                    }
                }
            };
            for (char const *s : {"0", "-1", "127", "-128", "255", "65535", "-32768", "2147483647", "18446744073709551615", "-9223372036854775808"})
                edits(s, [&](str const &t) { all_ints<C>(r, t); });
            for (char const *s : {"0.5", "-1e3", "12.25e-2", ".5", "5.", "1e+2"})
                edits(s, [&](str const &t) {
                    std::string n;
                    for (C c : t)
                    {
                        if (static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<C>>(c)) >= 0x80 || c == 0) return;
                        n += static_cast<char>(c);
                    }
                    one_float<double, C>(r, n);
                    one_float<float, C>(r, n);
                    one_float<long double, C>(r, n);
                });
        }
        lexers<C>(r);
    });
    r.sample("convert<int8_t>(\"-128\"), convert<uint64_t>(\"18446744073709551616\"), lexer reading \"18446744073709551616x\" from position 0 and 1");
}
