// C20: classification, case mapping, split, trim, replace/remove, wildcard, join — against independent
// definitions, over every character and over all short texts.
#include "fly/types/string/string.hpp"
#include "gen.hpp"
#include "mc_enum.hpp"

using gen::W;
using mc::show;

template <typename C>
static void classify(mc::Run &r)
{
    using S = fly::BasicString<C>;
    using U = std::make_unsigned_t<C>;
    auto check = [&](C c) {
        // the numeric value of the character; for signed types negative values are outside every class
        std::int64_t const v = static_cast<std::int64_t>(c);
        bool const up = v >= 65 && v <= 90, lo = v >= 97 && v <= 122, dg = v >= 48 && v <= 57;
        bool const xd = dg || (v >= 65 && v <= 70) || (v >= 97 && v <= 102);
        bool const sp = v == 32 || (v >= 9 && v <= 13);
        bool const ok = S::is_upper(c) == up && S::is_lower(c) == lo && S::is_alpha(c) == (up || lo) && S::is_digit(c) == dg &&
            S::is_x_digit(c) == xd && S::is_space(c) == sp && S::to_upper(c) == (lo ? static_cast<C>(v - 32) : c) &&
            S::to_lower(c) == (up ? static_cast<C>(v + 32) : c);
        if (!ok) r.fail(std::string("classify:") + gen::cname<C>(), "%s value %lld classified or mapped wrongly: alpha=%d upper=%d lower=%d digit=%d xdigit=%d space=%d to_upper=%lld to_lower=%lld",
                gen::cname<C>(), (long long)v, S::is_alpha(c), S::is_upper(c), S::is_lower(c), S::is_digit(c), S::is_x_digit(c), S::is_space(c), (long long)S::to_upper(c), (long long)S::to_lower(c));
    };
    r.section("classify");
    std::uint64_t const full = sizeof(C) == 1 ? 256 : sizeof(C) == 2 ? 0x10000 : r.thorough() ? 0x1000000 : 0x120000;
    for (std::uint64_t b = 0; b < full; b += 256)
    {
        if (!r.take()) continue;
        r.nontrivial();
        r.evaluations(255);
        for (std::uint64_t i = 0; i < 256; ++i) check(static_cast<C>(static_cast<U>(b + i)));
    }
    if (sizeof(C) == 4)
        for (int bit = 7; bit < 32; ++bit) // each ASCII value with one or all higher bits set
        {
            if (!r.take()) continue;
            r.nontrivial();
            r.evaluations(255);
            for (std::uint32_t i = 0; i < 128; ++i)
            {
                check(static_cast<C>(static_cast<U>(i | (1u << bit))));
                check(static_cast<C>(static_cast<U>(i | (~0u << bit))));
            }
        }
}

template <typename C>
static void splits(mc::Run &r)
{
    using S = fly::BasicString<C>;
    using str = std::basic_string<C>;
    r.section("split");
    auto one = [&](str const &s, std::vector<std::size_t> const &counts) {
        for (std::size_t count : counts)
        {
            std::vector<str> ref;
            str cur;
            auto flush = [&] {
                if (cur.empty()) return;
                if (count > 0 && ref.size() == count) ref.back() += str(1, C(',')) + cur;
                else ref.push_back(cur);
                cur.clear();
            };
            for (C c : s) { if (c == C(',')) flush(); else cur += c; }
            flush();
            auto const got = count == 0 ? S::split(s, C(',')) : S::split(s, C(','), count);
            auto const got2 = S::split(s, C(','), count);
            if (got != ref || got2 != ref)
                r.fail("split", "split(%s, ',', %zu) gives %zu pieces, last %s; expected %zu, last %s", show(s).c_str(), count, got.size(), got.empty() ? "-" : show(got.back()).c_str(), ref.size(), ref.empty() ? "-" : show(ref.back()).c_str());
        }
        if (s.find(C(',')) != str::npos) r.nontrivial();
    };
    str const alpha = W<C>("a,\t");
    gen::strings(alpha, 0, r.thorough() ? 9 : 7).each([&](str const &s) {
        if (r.take()) one(s, {0, 1, 2, 3, 4});
    });
    for (std::size_t n : gen::sizes(r.thorough() ? 300 : 70, r.thorough() ? 9000 : 1100))
        for (int shape = 0; shape < 4; ++shape)
        {
            if (!r.take()) continue;
            str s;
            for (std::size_t k = 0; k < n; ++k)
            {
                if (shape == 0) s += W<C>("a,");
                if (shape == 1) s += W<C>(",,ab");
                if (shape == 2) s += k % 7 == 3 ? C(',') : C('b');
                if (shape == 3) s += k == n / 2 ? C(',') : C('c');
            }
            one(s, {0, 1, 2, 3, n / 2, n == 0 ? 0 : n - 1, n, n + 1, 2 * n, std::size_t(-1)});
        }
}

template <typename C>
static void trims(mc::Run &r)
{
    using S = fly::BasicString<C>;
    using str = std::basic_string<C>;
    r.section("trim");
    str alpha = W<C>(" \t\v\nax");
    alpha += static_cast<C>(0x85);
    auto one = [&](str const &s) {
        auto sp = [](C c) { return c == C(' ') || c == C('\t') || c == C('\n') || c == C('\v') || c == C('\f') || c == C('\r'); };
        std::size_t a = 0, b = s.size();
        while (a < b && sp(s[a])) ++a;
        while (b > a && sp(s[b - 1])) --b;
        str ref = s.substr(a, b - a), got = s;
        S::trim(got);
        if (got != ref) r.fail("trim", "trim(%s) = %s", show(s).c_str(), show(got).c_str());
        if (ref.size() != s.size()) r.nontrivial();
    };
    gen::strings(alpha, 0, r.thorough() ? 6 : 5).each([&](str const &s) { if (r.take()) one(s); });
    // every character at either end
    for (std::uint64_t v = 0; v < (sizeof(C) == 1 ? 256u : 0x10000u); ++v)
    {
        if (!r.take()) continue;
        C const c = static_cast<C>(v);
        one({c});
        one({c, C('a'), c});
        one({C(' '), c, C('\t')});
    }
    for (std::size_t n : gen::sizes(r.thorough() ? 300 : 70, r.thorough() ? 9000 : 1100))
        for (std::size_t m : {std::size_t(0), std::size_t(1), n})
        {
            if (!r.take()) continue;
            for (char const *mid : {"", "x", "x y", "a\t\tb"})
            {
                one(str(n, C(' ')) + W<C>(mid) + str(m, C('\n')));
                one(str(m, C('\v')) + W<C>(mid) + str(n, C('\r')));
                one(str(m, C(' ')) + str(n, C('q')) + W<C>(mid) + str(n, C('\f')));
            }
        }
}

template <typename C>
static void replaces(mc::Run &r)
{
    using S = fly::BasicString<C>;
    using str = std::basic_string<C>;
    str const ab = W<C>("ab");
    auto const targets = gen::strings(ab, 0, r.thorough() ? 9 : 6).all();
    auto const searches = gen::strings(ab, 0, 3).all();
    auto const repls = gen::strings(W<C>("abc"), 0, 2).all();
    auto reference = [](str const &t, str const &s, str const &w) {
        if (s.empty()) return t;
        str out;
        for (std::size_t i = 0; i < t.size();)
        {
            if (t.compare(i, s.size(), s) == 0) { out += w; i += s.size(); }
            else out += t[i++];
        }
        return out;
    };
    r.section("replace_all");
    auto one = [&](str const &t, str const &s, str const &w) {
                str const ref = reference(t, s, w);
                if (ref != t) r.nontrivial();
                str got = t;
                S::replace_all(got, s, typename S::view_type(w));
                if (got != ref) r.fail("replace_all:string", "replace_all(%s, %s, %s) = %s, expected %s", show(t).c_str(), show(s).c_str(), show(w).c_str(), show(got).c_str(), show(ref).c_str());
                if (w.size() == 1)
                {
                    str got2 = t;
                    S::replace_all(got2, s, w[0]);
                    if (got2 != ref) r.fail("replace_all:char", "replace_all(%s, %s, char %s) = %s, expected %s", show(t).c_str(), show(s).c_str(), show(w).c_str(), show(got2).c_str(), show(ref).c_str());
                }
                if (w.empty())
                {
                    str got3 = t;
                    S::remove_all(got3, s);
                    if (got3 != ref) r.fail("remove_all", "remove_all(%s, %s) = %s, expected %s", show(t).c_str(), show(s).c_str(), show(got3).c_str(), show(ref).c_str());
                }
    };
    for (auto const &t : targets)
        for (auto const &s : searches)
            for (auto const &w : repls)
                if (r.take()) one(t, s, w);
    // long texts, long searches, long replacements
    for (std::size_t n : gen::sizes(r.thorough() ? 150 : 40, r.thorough() ? 4200 : 600))
    {
        std::vector<str> longs {str(n, C('a'))}, finds {W<C>("a"), W<C>("ab"), W<C>("aab"), W<C>("abab"), str(n, C('a')), str(n / 2 + 1, C('a')), str(n / 2, C('a')) + C('b')};
        str x;
        for (std::size_t k = 0; k < n; ++k) x += W<C>(k % 5 == 4 ? "b" : "a");
        longs.push_back(x);
        x.clear();
        for (std::size_t k = 0; k < n; ++k) x += W<C>("ab");
        longs.push_back(x);
        longs.push_back(str(n, C('a')) + C('b'));
        longs.push_back(C('b') + str(n, C('a')) + C('b') + str(n, C('a')));
        for (auto const &t : longs) for (auto const &s : finds)
        {
            if (!r.take()) continue;
            r.evaluations(5);
            for (auto const &w : {str(), W<C>("c"), W<C>("a"), W<C>("ab"), str(17, C('a')), str(n, C('z'))})
                if (t.size() * w.size() < 300000) one(t, s, w);
        }
    }
}

template <typename C>
static void wildcards(mc::Run &r)
{
    using S = fly::BasicString<C>;
    using str = std::basic_string<C>;
    bool const deep = sizeof(C) == 1 && std::is_same_v<C, char>;
    std::size_t const n = (r.thorough() ? 7 : 6) - (deep ? 0 : 1);
    auto const sources = gen::strings(W<C>("ab"), 0, n).all();
    auto const pats = gen::strings(W<C>("ab*"), 0, n).all();
    r.section("wildcard_match");
    auto one = [&](str const &s, str const &p) {
            // dynamic programming over prefixes
            std::vector<char> m(s.size() + 1, 0);
            m[0] = 1;
            for (C c : p)
            {
                std::vector<char> k(s.size() + 1, 0);
                if (c == C('*'))
                {
                    char any = 0;
                    for (std::size_t i = 0; i <= s.size(); ++i) { any |= m[i]; k[i] = any; }
                }
                else
                    for (std::size_t i = 1; i <= s.size(); ++i) k[i] = m[i - 1] && s[i - 1] == c;
                m = k;
            }
            bool const ref = !p.empty() && m[s.size()]; // an empty pattern matches nothing (documented by the tests)
            bool const got = S::wildcard_match(s, p);
            if (ref != got) r.fail("wildcard_match", "wildcard_match(%s, %s) = %d, expected %d", show(s).c_str(), show(p).c_str(), got, ref);
    };
    for (auto const &p : pats)
    {
        if (!r.take()) continue;
        r.nontrivial();
        r.evaluations(sources.size() - 1);
        for (auto const &s : sources) one(s, p);
    }
    // long texts and many pieces
    for (std::size_t n : gen::sizes(r.thorough() ? 100 : 40, r.thorough() ? 1100 : 260))
    {
        auto rep = [&](char const *x, std::size_t k) { str t; while (k-- > 0) t += W<C>(x); return t; };
        std::vector<str> texts {rep("a", n), rep("a", n) + C('b'), rep("ab", n), C('b') + rep("a", n), rep("a", n / 2) + C('b') + rep("a", n - n / 2)};
        std::vector<str> ps {rep("a", n), rep("a*", n), rep("*a", n), rep("*", n), rep("a*", n) + C('b'), C('*') + rep("a", n) + C('*'), rep("a", n) + C('*'), C('*') + rep("a", n), rep("ab*", n), rep("*ab*", n), rep("a", n / 2) + C('*') + rep("a", n - n / 2), C('*') + rep("a", n + 1) + C('*'), rep("a*b", n)};
        for (auto const &p : ps)
        {
            if (!r.take()) continue;
            r.nontrivial();
            r.evaluations(texts.size() - 1);
            for (auto const &t : texts) one(t, p);
        }
    }
}

template <typename C>
static void joins(mc::Run &r)
{
    using S = fly::BasicString<C>;
    using str = std::basic_string<C>;
    r.section("join");
    auto const parts = gen::strings(W<C>("a/"), 0, 2).all();
    C const sep = C('/');
    for (auto const &a : parts)
    {
        if (r.take() && S::join(sep, a) != a) r.fail("join", "join of one string changes it");
        for (auto const &b : parts)
        {
            if (r.take() && S::join(sep, a, b) != a + sep + b) r.fail("join", "join(%s,%s)=%s", show(a).c_str(), show(b).c_str(), show(S::join(sep, a, b)).c_str());
            for (auto const &c : parts)
            {
                if (!r.take()) continue;
                r.nontrivial();
                if (S::join(sep, a, b, c) != a + sep + b + sep + c) r.fail("join", "join(%s,%s,%s)", show(a).c_str(), show(b).c_str(), show(c).c_str());
                if (S::join(sep, a, 7, b, C('x'), c) != a + sep + W<C>("7") + sep + b + sep + W<C>("x") + sep + c) r.fail("join", "join of mixed values");
            }
        }
    }
    for (std::size_t n : gen::sizes(70, 5000))
    {
        if (!r.take()) continue;
        str const a(n, C('a')), b(n / 2, C('/'));
        if (S::join(sep, a, b, a) != a + sep + b + sep + a || S::join(sep, b, 1, a) != b + sep + W<C>("1") + sep + a) r.fail("join", "join of strings of %zu characters", n);
    }
    r.section("random");
    for (std::size_t n : gen::sizes(140, 5000))
    {
        if (!r.take()) continue;
        auto s = S::generate_random_string(n);
        bool ok = s.size() == n;
        for (C c : s) ok = ok && ((c >= C('0') && c <= C('9')) || (c >= C('a') && c <= C('z')) || (c >= C('A') && c <= C('Z')));
        if (!ok) r.fail("random", "generate_random_string(%zu) = %s", n, show(s).c_str());
    }
}

void enumerate(mc::Run &r)
{
    gen::each_char_type([&]<typename C>() {
        classify<C>(r);
        splits<C>(r);
        trims<C>(r);
        replaces<C>(r);
        wildcards<C>(r);
        joins<C>(r);
    });
    r.sample("wildcard_match(\"aab\",\"a*ab\"), every pattern over {a,b,*} against every text over {a,b}");
}
