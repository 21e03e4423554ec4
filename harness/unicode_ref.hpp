// Independent strict Unicode decoders and encoders (Unicode standard, tables 3-5 and 3-7).
#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <vector>

namespace uref {

using Points = std::vector<std::uint32_t>;

inline bool scalar(std::uint64_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }

// one code point starting at i; advances i; nullopt if ill-formed
template <typename C>
std::optional<std::uint32_t> next(C const *s, std::size_t n, std::size_t &i)
{
    if constexpr (sizeof(C) == 1)
    {
        auto b = [&](std::size_t k) -> int { return k < n ? static_cast<int>(static_cast<unsigned char>(s[k])) : -1; };
        auto in = [](int v, int lo, int hi) { return v >= lo && v <= hi; };
        int const a = b(i);
        if (in(a, 0x00, 0x7f)) { i += 1; return a; }
        if (in(a, 0xc2, 0xdf))
        {
            if (!in(b(i + 1), 0x80, 0xbf)) return std::nullopt;
            std::uint32_t const r = (a - 0xc0) * 64 + (b(i + 1) - 0x80);
            i += 2;
            return r;
        }
        if (in(a, 0xe0, 0xef))
        {
            int const lo = a == 0xe0 ? 0xa0 : 0x80, hi = a == 0xed ? 0x9f : 0xbf;
            if (!in(b(i + 1), lo, hi) || !in(b(i + 2), 0x80, 0xbf)) return std::nullopt;
            std::uint32_t const r = (a - 0xe0) * 4096 + (b(i + 1) - 0x80) * 64 + (b(i + 2) - 0x80);
            i += 3;
            return r;
        }
        if (in(a, 0xf0, 0xf4))
        {
            int const lo = a == 0xf0 ? 0x90 : 0x80, hi = a == 0xf4 ? 0x8f : 0xbf;
            if (!in(b(i + 1), lo, hi) || !in(b(i + 2), 0x80, 0xbf) || !in(b(i + 3), 0x80, 0xbf)) return std::nullopt;
            std::uint32_t const r = (a - 0xf0) * 262144 + (b(i + 1) - 0x80) * 4096 + (b(i + 2) - 0x80) * 64 + (b(i + 3) - 0x80);
            i += 4;
            return r;
        }
        return std::nullopt;
    }
    else if constexpr (sizeof(C) == 2)
    {
        std::uint32_t const a = static_cast<std::uint16_t>(s[i]);
        if (a < 0xd800 || a > 0xdfff) { i += 1; return a; }
        if (a > 0xdbff || i + 1 >= n) return std::nullopt;
        std::uint32_t const b = static_cast<std::uint16_t>(s[i + 1]);
        if (b < 0xdc00 || b > 0xdfff) return std::nullopt;
        i += 2;
        return 0x10000 + (a - 0xd800) * 1024 + (b - 0xdc00);
    }
    else
    {
        std::uint32_t const a = static_cast<std::uint32_t>(s[i]);
        if (!scalar(a)) return std::nullopt;
        i += 1;
        return a;
    }
}

template <typename C>
std::optional<Points> decode(C const *s, std::size_t n)
{
    Points p;
    for (std::size_t i = 0; i < n;)
    {
        auto c = next(s, n, i);
        if (!c) return std::nullopt;
        p.push_back(*c);
    }
    return p;
}

template <typename C>
void put(std::basic_string<C> &s, std::uint32_t c)
{
    if constexpr (sizeof(C) == 1)
    {
        if (c < 0x80) s += static_cast<C>(c);
        else if (c < 0x800) { s += static_cast<C>(0xc0 + c / 64); s += static_cast<C>(0x80 + c % 64); }
        else if (c < 0x10000) { s += static_cast<C>(0xe0 + c / 4096); s += static_cast<C>(0x80 + c / 64 % 64); s += static_cast<C>(0x80 + c % 64); }
        else { s += static_cast<C>(0xf0 + c / 262144); s += static_cast<C>(0x80 + c / 4096 % 64); s += static_cast<C>(0x80 + c / 64 % 64); s += static_cast<C>(0x80 + c % 64); }
    }
    else if constexpr (sizeof(C) == 2)
    {
        if (c < 0x10000) s += static_cast<C>(c);
        else { s += static_cast<C>(0xd800 + (c - 0x10000) / 1024); s += static_cast<C>(0xdc00 + (c - 0x10000) % 1024); }
    }
    else s += static_cast<C>(c);
}
template <typename C>
std::basic_string<C> encode(Points const &p)
{
    std::basic_string<C> s;
    for (auto c : p) put(s, c);
    return s;
}

} // namespace uref
