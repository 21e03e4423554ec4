// C19: escaping and unescaping against an independent definition.
#include "fly/types/string/string.hpp"
#include "gen.hpp"
#include "mc_enum.hpp"
#include "unicode_ref.hpp"

#include <memory>

using gen::W;
using mc::show;
using uref::Points;

template <typename C>
static std::basic_string<C> ref_escape(Points const &points, char style)
{
    std::basic_string<C> s;
    auto hex = [&](char letter, std::uint32_t v, int digits) {
        char b[20];
        std::snprintf(b, sizeof b, "\\%c%0*x", letter, digits, v);
        for (char const *p = b; *p; ++p) s += static_cast<C>(*p);
    };
    for (auto c : points)
    {
        if (c >= 0x20 && c <= 0x7e) s += static_cast<C>(c);
        else if (c <= 0xffff) hex('u', c, 4);
        else if (style == 'U') hex('U', c, 8);
        else { hex('u', 0xd800 + (c - 0x10000) / 1024, 4); hex('u', 0xdc00 + (c - 0x10000) % 1024, 4); }
    }
    return s;
}

// the code point of the escape at i, which is behind it afterwards
template <typename C>
static std::optional<std::uint32_t> ref_one(std::basic_string<C> const &s, std::size_t &i)
{
    auto number = [&](std::size_t at, std::size_t digits, std::uint64_t &v) {
        if (at + digits > s.size()) return false;
        v = 0;
        for (std::size_t k = 0; k < digits; ++k)
        {
            C const c = s[at + k];
            int d;
            if (c >= C('0') && c <= C('9')) d = static_cast<int>(c - C('0'));
            else if (c >= C('a') && c <= C('f')) d = static_cast<int>(c - C('a')) + 10;
            else if (c >= C('A') && c <= C('F')) d = static_cast<int>(c - C('A')) + 10;
            else return false;
            v = v * 16 + static_cast<unsigned>(d);
        }
        return true;
    };
    auto is = [&](std::size_t at, C letter) { return at + 1 < s.size() && s[at] == C('\\') && s[at + 1] == letter; };
    std::uint64_t v, w;
    if (is(i, C('u')))
    {
        if (!number(i + 2, 4, v)) return std::nullopt;
        if (v >= 0xdc00 && v <= 0xdfff) return std::nullopt;
        if (v >= 0xd800 && v <= 0xdbff)
        {
            if (!is(i + 6, C('u')) || !number(i + 8, 4, w) || w < 0xdc00 || w > 0xdfff) return std::nullopt;
            i += 12;
            return static_cast<std::uint32_t>(0x10000 + (v - 0xd800) * 1024 + (w - 0xdc00));
        }
        i += 6;
        return static_cast<std::uint32_t>(v);
    }
    if (is(i, C('U')))
    {
        if (!number(i + 2, 8, v) || !uref::scalar(v)) return std::nullopt;
        i += 10;
        return static_cast<std::uint32_t>(v);
    }
    return std::nullopt;
}
template <typename C>
static std::optional<std::basic_string<C>> ref_unescape(std::basic_string<C> const &s)
{
    std::basic_string<C> out;
    for (std::size_t i = 0; i < s.size();)
    {
        if (s[i] == C('\\') && i + 1 < s.size() && (s[i + 1] == C('u') || s[i + 1] == C('U')))
        {
            auto c = ref_one(s, i);
            if (!c) return std::nullopt;
            uref::put(out, *c);
        }
        else out += s[i++];
    }
    return out;
}

template <typename C>
static void unescape(mc::Run &r, std::basic_string<C> const &s)
{
    using S = fly::BasicString<C>;
    std::unique_ptr<C[]> e(new C[s.size()]);
    std::copy(s.begin(), s.end(), e.get());
    std::basic_string_view<C> const view(e.get(), s.size());
    auto const want = ref_unescape(s);
    auto const got = S::unescape_all_codepoints(view);
    if (want != got) r.fail(std::string("unescape:") + gen::cname<C>(), "unescaping %s gives %s instead of %s", show(s).c_str(), got ? show(*got).c_str() : "nothing", want ? show(*want).c_str() : "nothing");
    if (s.find(C('\\')) != std::basic_string<C>::npos) r.nontrivial();
    // the single form at the start of the text
    std::size_t i = 0;
    auto const c = ref_one(s, i);
    auto it = view.cbegin();
    auto const one = S::unescape_codepoint(it, view.cend());
    if (one.has_value() != c.has_value() || (c && *one != uref::encode<C>({*c}))) r.fail(std::string("one:") + gen::cname<C>(), "unescaping one code point of %s gives %s", show(s).c_str(), one ? show(*one).c_str() : "nothing");
    else if (c && it != view.cbegin() + static_cast<std::ptrdiff_t>(i)) r.fail("step", "unescaping one code point of %s leaves the iterator at %td instead of %zu", show(s).c_str(), it - view.cbegin(), i);
}

template <typename C, char Style>
static void escape(mc::Run &r, Points const &p)
{
    using S = fly::BasicString<C>;
    auto const s = uref::encode<C>(p);
    auto const want = ref_escape<C>(p, Style);
    auto const got = S::template escape_all_codepoints<Style>(s);
    if (!got || *got != want) { r.fail(std::string("escape:") + gen::cname<C>() + Style, "escaping %s gives %s instead of %s", show(s).c_str(), got ? show(*got).c_str() : "nothing", show(want).c_str()); return; }
    // text which already contains an escape cannot come back
    bool already = false;
    for (std::size_t i = 0; i + 1 < p.size(); ++i) already = already || (p[i] == '\\' && (p[i + 1] == 'u' || p[i + 1] == 'U'));
    if (already) return;
    auto const back = S::unescape_all_codepoints(*got);
    if (!back || *back != s) r.fail(std::string("back:") + gen::cname<C>() + Style, "escaping and unescaping %s gives %s", show(s).c_str(), back ? show(*back).c_str() : "nothing");
    // one by one
    std::basic_string_view<C> const v(s);
    std::basic_string<C> all;
    auto it = v.cbegin();
    while (it != v.cend())
    {
        auto const before = it;
        auto x = S::template escape_codepoint<Style>(it, v.cend());
        if (!x || it == before) { r.fail("one-escape", "escaping %s one by one stops at %td", show(s).c_str(), before - v.cbegin()); return; }
        all += *x;
    }
    if (all != want) r.fail("one-escape", "escaping %s one by one gives %s", show(s).c_str(), show(all).c_str());
}

template <typename C>
static void both(mc::Run &r, Points const &p)
{
    escape<C, 'u'>(r, p);
    escape<C, 'U'>(r, p);
}

template <typename C>
static void type(mc::Run &r, bool deep)
{
    using str = std::basic_string<C>;
    using S = fly::BasicString<C>;
    r.section("escape");
    for (std::uint32_t b = 0; b < 0x110000; b += 64)
    {
        if (!r.take()) continue;
        r.nontrivial();
        r.evaluations(64);
        Points all;
        for (std::uint32_t c = b; c < b + 64; ++c)
            if (uref::scalar(c)) { both<C>(r, {c}); all.push_back(c); }
        both<C>(r, all);
    }
    std::vector<std::uint32_t> const reps {0, 1, 9, 0x1f, 0x20, '"', '0', 'A', 'U', 'u', '\\', 0x7e, 0x7f, 0x80, 0x9f, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0xfffff, 0x100000, 0x10ffff};
    for (auto a : reps)
        for (auto b : reps)
        {
            if (!r.take()) continue;
            r.nontrivial();
            r.evaluations(reps.size());
            both<C>(r, {a, b});
            for (auto c : reps) both<C>(r, {a, b, c});
        }
    // ill-formed text is refused
    for (std::uint32_t bad : {0x80u, 0xc3u, 0xd800u, 0xdc00u, 0xe2u, 0xffu, 0x110000u, 0xffffffffu})
    {
        if (!r.take()) continue;
        for (int at = 0; at < 3; ++at)
        {
            str s {C('a'), C('b')};
            s.insert(s.begin() + at, static_cast<C>(bad));
            bool const ok = uref::decode(s.data(), s.size()).has_value();
            if (S::template escape_all_codepoints<'u'>(s).has_value() != ok || S::template escape_all_codepoints<'U'>(s).has_value() != ok) r.fail("ill", "escaping %s %s", show(s).c_str(), ok ? "fails" : "succeeds");
        }
    }
    // long texts
    for (std::size_t n : gen::sizes(130, r.thorough() ? 9000 : 2100))
        for (std::uint32_t c : {0x41u, 0x7fu, 0xe9u, 0x20acu, 0x1f600u})
        {
            if (!r.take()) continue;
            r.nontrivial();
            Points p(n, c);
            both<C>(r, p);
            p.push_back(0x1f601);
            both<C>(r, p);
            p.insert(p.begin(), 0x9);
            both<C>(r, p);
            str const u = W<C>(c < 0x80 ? "A" : c < 0x100 ? "\\\\" : c < 0x10000 ? "\\u20aC" : "\\U0001F600");
            str s;
            for (std::size_t k = 0; k < n; ++k) s += u;
            for (char const *e : {"", "\\", "\\u", "\\u00e9", "\\ud83d", "\\uD83D\\uDE00", "\\U0010ffff", "\\U00110000", "\\ude00"})
            {
                unescape<C>(r, s + W<C>(e));
                unescape<C>(r, W<C>(e) + s);
            }
        }
    r.section("unescape");
    gen::strings(W<C>("\\uUd80cg"), 0, deep ? (r.thorough() ? 8 : 6) : 5).each([&](str const &s) { if (r.take()) unescape<C>(r, s); });
    // \u with every digit pattern, and what follows
    std::vector<str> next;
    for (char const *t : {"", "\\", "\\u", "\\uD", "\\uDC0", "\\uDC00", "\\udfff", "\\uE000", "\\uDBFF", "\\uD800", "\\ud800\\udc00", "x", "\\UDC00", "\\U0000DC00", "uDC00", "\\\\uDC00", "\\uDC0g", "\\u0041", "\\n", " \\uDC00"}) next.push_back(W<C>(t));
    str const digits = W<C>(deep ? "0189aAbBcCdDeEfFgG/:@`" : "08dDcCfg");
    for (C a : digits)
        for (C b : digits)
        {
            if (!r.take()) continue;
            r.evaluations(digits.size() * digits.size());
            for (C c : digits)
                for (C d : digits)
                {
                    bool const sur = a == C('d') || a == C('D');
                    for (std::size_t k = 0; k < (sur ? next.size() : 2); ++k) unescape<C>(r, W<C>("\\u") + a + b + c + d + next[k]);
                }
        }
    // the second half of a pair
    for (C a : digits)
        for (C b : digits)
        {
            if (!r.take()) continue;
            for (C c : digits) for (C d : digits) unescape<C>(r, W<C>("\\ud8Ff\\u") + a + b + c + d + C('q'));
        }
    // \U
    str const few = W<C>(deep ? "01dD8fFg" : "01dFg");
    gen::strings(few, 4, 4).each([&](str const &hi) {
        if (!r.take()) return;
        for (char const *lo : {"0000", "FFFF", "d7ff", "D800", "dfff", "e000", "ffff", "00g0", "FFF", "", "0041", "12345"}) unescape<C>(r, W<C>("\\U") + hi + W<C>(lo));
    });
    gen::strings(few, 0, deep ? 5 : 4).each([&](str const &lo) {
        if (!r.take()) return;
        for (char const *hi : {"0000", "0010", "0011", "0000d", "0010F", "0001"}) unescape<C>(r, W<C>("\\U") + W<C>(hi) + lo);
    });
    // characters which only look like digits or letters when cut down to a byte
    if (sizeof(C) > 1)
        for (std::uint32_t high : {0x100u, 0x8000u, 0xff00u})
            for (int at = 0; at < 6; ++at)
            {
                if (!r.take()) continue;
                str s = W<C>("\\u0041z");
                s[static_cast<std::size_t>(at)] = static_cast<C>(s[static_cast<std::size_t>(at)] + high);
                unescape<C>(r, s);
            }
}

void enumerate(mc::Run &r)
{
    type<char>(r, true);
    type<wchar_t>(r, false);
    type<char8_t>(r, false);
    type<char16_t>(r, false);
    type<char32_t>(r, false);
}
