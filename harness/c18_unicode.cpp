// C18: validation, decoding, encoding and conversion between all encodings, against independent decoders.
#include "fly/types/string/string.hpp"
#include "gen.hpp"
#include "mc_enum.hpp"
#include "unicode_ref.hpp"

#include <memory>

using mc::show;
using uref::Points;

// a buffer of exactly the size of the text, so that reading beyond the end is noticed
template <typename C>
struct Exact
{
    std::unique_ptr<C[]> p;
    std::size_t n;
    explicit Exact(std::basic_string<C> const &s) : p(new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
    std::basic_string_view<C> view() const { return {p.get(), n}; }
};

template <typename From, typename To>
static void conversion(mc::Run &r, std::basic_string<From> const &s, std::optional<Points> const &points)
{
    using F = fly::BasicString<From>;
    auto const got = F::template convert<std::basic_string<To>>(s);
    if (!points)
    {
        if (got) r.fail(std::string("convert-ill:") + gen::cname<From>() + gen::cname<To>(), "converting the ill-formed %s text %s to %s succeeds with %s", gen::cname<From>(), show(s).c_str(), gen::cname<To>(), show(*got).c_str());
        return;
    }
    auto const want = uref::encode<To>(*points);
    if (!got || *got != want)
    {
        r.fail(std::string("convert:") + gen::cname<From>() + gen::cname<To>(), "converting the %s text %s to %s gives %s instead of %s", gen::cname<From>(), show(s).c_str(), gen::cname<To>(), got ? show(*got).c_str() : "nothing", show(want).c_str());
        return;
    }
    auto const back = fly::BasicString<To>::template convert<std::basic_string<From>>(*got);
    if (!back || *back != s) r.fail(std::string("back:") + gen::cname<From>() + gen::cname<To>(), "converting the %s text %s to %s and back gives %s", gen::cname<From>(), show(s).c_str(), gen::cname<To>(), back ? show(*back).c_str() : "nothing");
}

template <typename C>
static bool text(mc::Run &r, std::basic_string<C> const &s, bool conversions = true)
{
    using S = fly::BasicString<C>;
    auto const points = uref::decode(s.data(), s.size());
    Exact<C> const e(s);
    bool const valid = S::validate(e.view());
    if (valid != points.has_value()) r.fail(std::string("validate:") + gen::cname<C>(), "the %s text %s is %s but validate says %s", gen::cname<C>(), show(s).c_str(), points ? "well-formed" : "ill-formed", valid ? "true" : "false");
    // stepwise decoding
    auto const view = e.view();
    auto it = view.cbegin();
    std::size_t i = 0;
    while (i < s.size())
    {
        std::size_t j = i;
        auto const want = uref::next(s.data(), s.size(), j);
        auto const got = S::decode_codepoint(it, view.cend());
        if (want.has_value() != got.has_value() || (want && *want != *got))
        {
            r.fail(std::string("decode:") + gen::cname<C>(), "decoding %s at %zu gives %lld instead of %lld", show(s).c_str(), i, got ? (long long)*got : -1, want ? (long long)*want : -1);
            break;
        }
        if (!want) break;
        i = j;
        if (it != view.cbegin() + static_cast<std::ptrdiff_t>(i)) { r.fail(std::string("step:") + gen::cname<C>(), "decoding %s leaves the iterator at %td instead of %zu", show(s).c_str(), it - view.cbegin(), i); break; }
    }
    if (i == s.size())
    {
        auto const got = S::decode_codepoint(it, view.cend());
        if (got) r.fail("end", "decoding at the end of %s gives U+%x", show(s).c_str(), (unsigned)*got);
    }
    if (conversions)
    {
        conversion<C, char>(r, s, points);
        conversion<C, wchar_t>(r, s, points);
        conversion<C, char8_t>(r, s, points);
        conversion<C, char16_t>(r, s, points);
        conversion<C, char32_t>(r, s, points);
    }
    return points.has_value();
}

template <typename C>
static void points(mc::Run &r)
{
    using S = fly::BasicString<C>;
    r.section("code points");
    std::uint32_t const block = 64;
    for (std::uint32_t b = 0; b < 0x110400; b += block)
    {
        if (!r.take()) continue;
        r.nontrivial();
        Points all;
        bool const corner = (b & 0x3ff) == 0 || b < 0x1000 || (b >= 0xd700 && b < 0xe100) || b >= 0x10ff00;
        for (std::uint32_t c = b; c < b + block; ++c)
        {
            auto const got = S::encode_codepoint(static_cast<typename S::codepoint_type>(c));
            if (got.has_value() != uref::scalar(c) || (got && *got != uref::encode<C>({c}))) r.fail(std::string("encode:") + gen::cname<C>(), "encoding U+%X gives %s", c, got ? show(*got).c_str() : "nothing");
            if (uref::scalar(c))
            {
                text<C>(r, uref::encode<C>({c}), corner || r.thorough());
                all.push_back(c);
            }
        }
        text<C>(r, uref::encode<C>(all));
        r.evaluations(block);
    }
    for (std::uint64_t v : {0x110000ull, 0x110001ull, 0x1fffffull, 0x200000ull, 0x7fffffffull, 0x80000000ull, 0xfffffffeull, 0xffffffffull, 0xd800ull + 0x110000, 0x100000041ull})
    {
        if (!r.take()) continue;
        auto const c = static_cast<typename S::codepoint_type>(v);
        auto const got = S::encode_codepoint(c);
        if (got.has_value() != uref::scalar(c)) r.fail("encode-big", "encoding %llx %s", (unsigned long long)c, got ? "succeeds" : "fails");
    }
}

template <typename C>
static void bytes(mc::Run &r)
{
    r.section("bytes");
    auto one = [&](std::basic_string<C> const &s, bool conv) { if (text<C>(r, s, conv)) r.nontrivial(); };
    // every string of one and two bytes
    for (int a = 0; a < 256; ++a)
    {
        if (r.take()) one({static_cast<C>(a)}, true);
        if (!r.take()) continue;
        r.evaluations(255);
        for (int b = 0; b < 256; ++b) one({static_cast<C>(a), static_cast<C>(b)}, b % 16 == 0 || b % 16 == 15);
    }
    // longer strings over the boundaries of the byte classes
    std::vector<int> const reps {0x00, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff};
    std::vector<int> const lead {0x41, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8};
    for (int a = 0; a < 256; ++a)
        for (int b : reps)
        {
            if (!r.take()) continue;
            r.evaluations(reps.size() - 1);
            for (int c : reps) one({static_cast<C>(a), static_cast<C>(b), static_cast<C>(c)}, false);
        }
    for (int a : reps)
        for (int b : reps)
            for (int c : reps)
            {
                if (!r.take()) continue;
                r.evaluations(reps.size() - 1);
                for (int d : reps) one({static_cast<C>(a), static_cast<C>(b), static_cast<C>(c), static_cast<C>(d)}, a >= 0xe0 && d == 0x80);
            }
    // a lead byte with valid continuations behind something else, all truncations
    for (int a : lead)
        for (int b : reps)
            for (int c : {0x80, 0xbf, 0x41})
            {
                if (!r.take()) continue;
                for (int d : {0x80, 0xbf, 0x41, 0xc3})
                    for (int x : {0x41, 0xc3, 0x80})
                    {
                        std::basic_string<C> s {static_cast<C>(a), static_cast<C>(b), static_cast<C>(c), static_cast<C>(d), static_cast<C>(x), static_cast<C>(0xa4)};
                        for (std::size_t n = 0; n <= s.size(); ++n) one(s.substr(0, n), true);
                        for (std::size_t n = 0; n <= s.size(); ++n) one(std::basic_string<C>(1, C('z')) + s.substr(0, n), n == 4);
                    }
            }
}

template <typename C>
static void units(mc::Run &r)
{
    r.section("units");
    auto one = [&](std::basic_string<C> const &s) { if (text<C>(r, s)) r.nontrivial(); };
    std::vector<std::uint32_t> reps {0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xdbfe, 0xdbff, 0xdc00, 0xdc01, 0xdffe, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff};
    if (sizeof(C) == 4) for (std::uint32_t v : {0x10000u, 0x10ffffu, 0x110000u, 0x1fffffu, 0x7fffffffu, 0x80000000u, 0x80000041u, 0xffffffffu, 0xffffd800u}) reps.push_back(v);
    if (sizeof(C) == 2)
        for (std::uint32_t a = 0; a < 0x10000; a += 64)
        {
            if (!r.take()) continue;
            r.evaluations(63);
            for (std::uint32_t i = 0; i < 64; ++i)
            {
                text<C>(r, {static_cast<C>(a + i)}, false);
                if (a + i >= 0xd700 && a + i < 0xe100) for (std::uint32_t b : reps) text<C>(r, {static_cast<C>(a + i), static_cast<C>(b)}, false), text<C>(r, {static_cast<C>(b), static_cast<C>(a + i)}, false);
            }
        }
    for (std::uint32_t a : reps)
    {
        if (r.take()) one({static_cast<C>(a)});
        for (std::uint32_t b : reps)
        {
            if (!r.take()) continue;
            one({static_cast<C>(a), static_cast<C>(b)});
            r.evaluations(reps.size());
            for (std::uint32_t c : reps) one({static_cast<C>(a), static_cast<C>(b), static_cast<C>(c)});
            if (r.thorough()) for (std::uint32_t c : reps) for (std::uint32_t d : reps) one({static_cast<C>(a), static_cast<C>(b), static_cast<C>(c), static_cast<C>(d)});
        }
    }
}

// long texts, with and without something wrong at either end or in the middle
template <typename C>
static void lengths(mc::Run &r)
{
    using str = std::basic_string<C>;
    r.section("lengths");
    std::vector<str> ends {str()};
    for (std::uint32_t c : {0x41u, 0xe9u, 0x20acu, 0x1f600u, 0x10ffffu}) ends.push_back(uref::encode<C>({c}));
    for (std::uint32_t c : {0x80u, 0xc3u, 0xe2u, 0xf0u, 0xffu, 0xd83du, 0xde00u, 0x110000u}) if (c <= std::uint32_t {static_cast<C>(~C {})} || sizeof(C) == 4) ends.push_back(str(1, static_cast<C>(c)));
    str const cut = uref::encode<C>({0x1f600});
    for (std::size_t k = 1; k < cut.size(); ++k) ends.push_back(cut.substr(0, k));
    for (std::size_t n : gen::sizes(r.thorough() ? 300 : 140, r.thorough() ? 70000 : 4200))
        for (std::uint32_t c : {0x78u, 0xe9u, 0x20acu, 0x1f600u})
        {
            if (!r.take()) continue;
            r.nontrivial();
            str const u = uref::encode<C>({c});
            str s;
            for (std::size_t k = 0; k < n; ++k) s += u;
            bool const conv = n <= 140 ? n % 8 < 2 || n > 120 : true;
            for (auto const &e : ends)
            {
                r.evaluations(1);
                text<C>(r, s + e, conv);
                if (n > 140 && n % 2 != 0) continue;
                text<C>(r, e + s, false);
                text<C>(r, s + e + s, false);
            }
        }
}

void enumerate(mc::Run &r)
{
    lengths<char>(r);
    lengths<wchar_t>(r);
    lengths<char8_t>(r);
    lengths<char16_t>(r);
    lengths<char32_t>(r);
    points<char>(r);
    points<wchar_t>(r);
    points<char8_t>(r);
    points<char16_t>(r);
    points<char32_t>(r);
    bytes<char>(r);
    bytes<char8_t>(r);
    units<char16_t>(r);
    units<char32_t>(r);
    units<wchar_t>(r);
}
