// Small helpers for exhaustive generation of strings and for using every character type.
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>

namespace gen {

// All strings over the alphabet with length in [lo, hi], in length-lexicographic order.
template <typename S>
struct Strings
{
    S alphabet;
    std::size_t lo, hi;

    template <typename F>
    void each(F &&f) const
    {
        for (std::size_t n = lo; n <= hi; ++n)
        {
            std::vector<std::size_t> idx(n, 0);
            S s(n, alphabet[0]);
            for (;;)
            {
                f(s);
                std::size_t i = n;
                while (i > 0)
                {
                    --i;
                    if (++idx[i] < alphabet.size()) { s[i] = alphabet[idx[i]]; break; }
                    idx[i] = 0;
                    s[i] = alphabet[0];
                    if (i == 0) { i = SIZE_MAX; break; }
                }
                if (n == 0 || i == SIZE_MAX) break;
            }
        }
    }
    std::vector<S> all() const
    {
        std::vector<S> v;
        each([&](S const &s) { v.push_back(s); });
        return v;
    }
};
template <typename S>
Strings<S> strings(S alphabet, std::size_t lo, std::size_t hi) { return {alphabet, lo, hi}; }

// Widen plain ASCII text (char by char) to another character type.
template <typename C>
std::basic_string<C> W(std::string_view s)
{
    std::basic_string<C> r;
    for (char c : s) r += static_cast<C>(static_cast<unsigned char>(c));
    return r;
}
template <typename C> char const *cname();
template <> inline char const *cname<char>() { return "char"; }
template <> inline char const *cname<wchar_t>() { return "wchar_t"; }
template <> inline char const *cname<char8_t>() { return "char8_t"; }
template <> inline char const *cname<char16_t>() { return "char16_t"; }
template <> inline char const *cname<char32_t>() { return "char32_t"; }

template <typename F>
void each_char_type(F &&f)
{
    f.template operator()<char>();
    f.template operator()<wchar_t>();
    f.template operator()<char8_t>();
    f.template operator()<char16_t>();
    f.template operator()<char32_t>();
}

// Sizes at which buffers, blocks and counters may change their ways: every one up to a bound, then around the powers
// of two, the powers of ten and the multiples of odd block sizes, up to a bound.
inline std::vector<std::size_t> sizes(std::size_t every, std::size_t most)
{
    std::vector<std::size_t> v;
    for (std::size_t n = 0; n <= every; ++n) v.push_back(n);
    std::vector<std::size_t> marks;
    for (std::size_t p = 1; p <= most + 2; p *= 2) { marks.push_back(p); marks.push_back(p + p / 2); }
    for (std::size_t p = 10; p <= most + 2; p *= 10) { marks.push_back(p); marks.push_back(p * 2); marks.push_back(p * 3); marks.push_back(p * 5); }
    for (std::size_t m : marks) for (std::size_t n = m - 1; n <= m + 1; ++n) if (n > every && n <= most) v.push_back(n);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}

} // namespace gen
