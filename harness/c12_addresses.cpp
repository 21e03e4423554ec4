// C12: IPv4 / IPv6 / endpoint text <-> value, against independent readings (and inet_pton).
#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/types/string/format.hpp"
#include "gen.hpp"
#include "mc_enum.hpp"

#include <arpa/inet.h>

using namespace fly::net;
using mc::show;

// ---- independent readings
static std::optional<std::uint32_t> ref_v4(std::string const &s)
{
    std::vector<unsigned __int128> parts;
    std::size_t i = 0;
    for (;;)
    {
        std::size_t n = 0;
        unsigned __int128 v = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (v < (static_cast<unsigned __int128>(1) << 100)) v = v * 10 + static_cast<unsigned>(s[i] - '0'); ++i; ++n; }
        if (!n) return {};
        parts.push_back(v);
        if (i == s.size()) break;
        if (s[i] != '.') return {};
        ++i;
    }
    if (parts.size() > 4) return {};
    for (std::size_t k = 0; k + 1 < parts.size(); ++k) if (parts[k] > 255) return {};
    std::size_t const bits = 8 * (5 - parts.size());
    if (parts.back() >> bits) return {};
    unsigned __int128 v = parts.back();
    for (std::size_t k = 0; k + 1 < parts.size(); ++k) v |= parts[k] << (8 * (3 - k));
    return static_cast<std::uint32_t>(v);
}
// -1: not asserted
static int ref_v6(std::string const &s, std::uint8_t (&out)[16])
{
    std::vector<std::optional<unsigned>> toks; // nullopt = "::"
    // split on "::" first
    std::size_t dc = s.find("::");
    bool odd = false;
    auto groups = [&](std::string const &t, std::vector<unsigned> &g) -> bool {
        if (t.empty()) return true;
        std::size_t i = 0;
        for (;;)
        {
            std::size_t n = 0;
            unsigned long long v = 0;
            while (i < t.size() && isxdigit((unsigned char)t[i]))
            {
                if (v < (1ull << 40)) v = v * 16 + static_cast<unsigned>(t[i] <= '9' ? t[i] - '0' : (t[i] | 32) - 'a' + 10);
                ++i; ++n;
            }
            if (n == 0 || v > 0xffff) return false;
            if (n > 4) odd = true;
            g.push_back(static_cast<unsigned>(v));
            if (i == t.size()) return true;
            if (t[i] != ':') return false;
            if (++i == t.size()) return false;
        }
    };
    std::vector<unsigned> a, b;
    if (dc == std::string::npos)
    {
        if (s.empty() || !groups(s, a) || a.size() != 8) return 0;
    }
    else
    {
        if (!groups(s.substr(0, dc), a) || !groups(s.substr(dc + 2), b) || a.size() + b.size() > 7) return 0;
        while (a.size() + b.size() < 8) a.push_back(0);
        a.insert(a.end(), b.begin(), b.end());
    }
    if (odd) return -1; // more than four digits of which the leading ones are zero: not asserted
    for (std::size_t k = 0; k < 8; ++k) { out[2 * k] = static_cast<std::uint8_t>(a[k] >> 8); out[2 * k + 1] = static_cast<std::uint8_t>(a[k]); }
    return 1;
}

static void check_v4_text(mc::Run &r, std::string const &s)
{
    auto const want = ref_v4(s);
    auto const got = IPv4Address::from_string(s);
    r.transitions();
    if (want) { r.nontrivial(); r.state(mc::hash_mix(4, *want)); }
    if (want.has_value() != got.has_value() || (want && got->host_order() != *want))
        r.fail("v4:text", "IPv4 %s: got %s%x expected %s%x", show(s).c_str(), got ? "" : "nothing ", got ? got->host_order() : 0, want ? "" : "nothing ", want.value_or(0));
    if (want && got)
    {
        std::uint32_t const n = got->network_order();
        std::uint8_t const *b = reinterpret_cast<std::uint8_t const *>(&n);
        if (b[0] != (*want >> 24) || b[1] != ((*want >> 16) & 255) || b[2] != ((*want >> 8) & 255) || b[3] != (*want & 255)) r.fail("v4:order", "network order of %s", s.c_str());
    }
}
static void check_v4_value(mc::Run &r, std::uint32_t host)
{
    IPv4Address const a({static_cast<std::uint8_t>(host >> 24), static_cast<std::uint8_t>(host >> 16), static_cast<std::uint8_t>(host >> 8), static_cast<std::uint8_t>(host)});
    IPv4Address const b(static_cast<std::uint32_t>(htonl(host)));
    char want[32];
    std::snprintf(want, sizeof want, "%u.%u.%u.%u", host >> 24, (host >> 16) & 255, (host >> 8) & 255, host & 255);
    auto const text = fly::string::format("{}", a);
    auto const back = IPv4Address::from_string(text);
    if (a != b || a.host_order() != host || a.network_order() != htonl(host) || text != want || !back || *back != a)
        r.fail("v4:value", "IPv4 value %08x: text %s host %08x", host, text.c_str(), a.host_order());
}
static void check_v6_text(mc::Run &r, std::string const &s)
{
    std::uint8_t want[16];
    int const w = ref_v6(s, want);
    if (w < 0) return;
    auto const got = IPv6Address::from_string(s);
    in6_addr sys;
    int const p = s.find('.') == std::string::npos ? inet_pton(AF_INET6, s.c_str(), &sys) : w;
    if (p != w && s.find('\0') == std::string::npos) r.fail("oracle", "reference and inet_pton disagree on %s", s.c_str());
    r.transitions();
    if (w) { r.nontrivial(); r.state(mc::hash_str(std::string(reinterpret_cast<char const *>(want), 16))); }
    if (static_cast<bool>(w) != got.has_value()) { r.fail("v6:text", "IPv6 %s %s", show(s).c_str(), w ? "rejected" : "accepted"); return; }
    if (!w) return;
    std::uint8_t b[16];
    got->copy(b);
    if (std::memcmp(b, want, 16) != 0) r.fail("v6:text-value", "IPv6 %s parsed to %s", show(s).c_str(), fly::string::format("{}", *got).c_str());
}
static void check_v6_value(mc::Run &r, std::uint8_t const (&bytes)[16])
{
    IPv6Address const a(bytes);
    auto const text = fly::string::format("{}", a);
    auto const back = IPv6Address::from_string(text);
    std::uint8_t b[16];
    in6_addr sys;
    if (!back || *back != a) { r.fail("v6:roundtrip", "formatting gives %s which parses to %s", text.c_str(), back ? fly::string::format("{}", *back).c_str() : "nothing"); return; }
    back->copy(b);
    if (std::memcmp(b, bytes, 16) || inet_pton(AF_INET6, text.c_str(), &sys) != 1 || std::memcmp(&sys, bytes, 16)) r.fail("v6:value", "text %s does not denote the value", text.c_str());
    bool zeros = false;
    for (int i = 0; i + 4 <= 16; i += 2) zeros = zeros || !(bytes[i] | bytes[i + 1] | bytes[i + 2] | bytes[i + 3]);
    if (zeros && text.find("::") == std::string::npos) r.fail("v6:shorthand", "text %s does not shorten the zero groups", text.c_str());
    // shorthand: no group has leading zeros, lower case
    for (std::size_t i = 0; i < text.size(); ++i)
        if (!(text[i] == ':' || (text[i] >= '0' && text[i] <= '9') || (text[i] >= 'a' && text[i] <= 'f')) || (text[i] == '0' && (i == 0 || text[i - 1] == ':') && i + 1 < text.size() && text[i + 1] != ':'))
            r.fail("v6:shorthand", "text %s is not shorthand", text.c_str());
}

template <typename A>
static void check_endpoint_text(mc::Run &r, std::string const &s)
{
    constexpr bool v6 = std::is_same_v<A, IPv6Address>;
    auto const got = Endpoint<A>::from_string(s);
    std::size_t const c = s.rfind(':');
    bool ok = c != std::string::npos;
    std::string addr = ok ? s.substr(0, c) : "", port = ok ? s.substr(c + 1) : "";
    unsigned long pv = 0;
    if (port.empty()) ok = false;
    for (char ch : port)
    {
        if (ch < '0' || ch > '9') ok = false;
        else if (pv < 1000000) pv = pv * 10 + static_cast<unsigned>(ch - '0');
    }
    if (pv > 65535) ok = false;
    std::uint8_t b6[16], g6[16];
    std::optional<std::uint32_t> v4;
    if (v6)
    {
        if (addr.size() < 2 || addr.front() != '[' || addr.back() != ']') ok = false;
        else { int w = ref_v6(addr.substr(1, addr.size() - 2), b6); if (w < 0) return; if (!w) ok = false; }
    }
    else { v4 = ref_v4(addr); if (!v4) ok = false; }
    r.transitions();
    if (ok) { r.nontrivial(); r.state(mc::hash_mix(mc::hash_str(addr), pv)); }
    if (ok != got.has_value()) { r.fail(v6 ? "ep6:text" : "ep4:text", "endpoint %s %s", show(s).c_str(), ok ? "rejected" : "accepted"); return; }
    if (!ok) return;
    bool same = got->port() == pv;
    if constexpr (v6) { got->address().copy(g6); same = same && !std::memcmp(g6, b6, 16); }
    else same = same && got->address().host_order() == *v4;
    auto const text = fly::string::format("{}", *got);
    auto const back = Endpoint<A>::from_string(text);
    if (!same || !back || *back != *got) r.fail("ep:value", "endpoint %s parsed to %s", show(s).c_str(), text.c_str());
    if (Endpoint<A>::is_ipv6() != v6 || Endpoint<A>::is_ipv4() == v6) r.fail("ep:kind", "kind");
}

void enumerate(mc::Run &r)
{
    bool const T = r.thorough();
    r.section("v4 text");
    gen::strings(std::string("0129. x"), 0, T ? 7 : 6).each([&](std::string const &s) { if (r.take()) check_v4_text(r, s); });
    {
        // one to five parts out of boundary numbers, and junk at either end
        std::vector<std::string> const nums {"0", "1", "255", "256", "65535", "65536", "16777215", "16777216", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211457", "", "-1", "007"};
        for (std::size_t n = 1; n <= 5; ++n)
        {
            std::vector<std::size_t> idx(n, 0);
            for (;;)
            {
                if (n < 5 || T || idx[3] < 3)
                {
                    std::string s;
                    for (std::size_t k = 0; k < n; ++k) s += (k ? "." : "") + nums[idx[k]];
                    if (n <= 4 || T)
                        if (r.take()) { check_v4_text(r, s); if (n <= 2) for (char const *j : {" ", ".", "a", "-", "+"}) { check_v4_text(r, s + j); check_v4_text(r, j + s); } }
                }
                std::size_t k = n;
                while (k > 0 && ++idx[k - 1] == nums.size()) idx[--k] = 0;
                if (k == 0) break;
            }
        }
    }
    r.section("v4 value");
    {
        std::vector<std::uint32_t> bytes {0, 1, 2, 9, 10, 99, 100, 127, 128, 254, 255};
        for (auto a : bytes) for (auto b : bytes) for (auto c : bytes) for (auto d : bytes) if (r.take()) check_v4_value(r, a << 24 | b << 16 | c << 8 | d);
        for (std::uint32_t v = 0; v < 256; ++v) for (int sh : {0, 8, 16, 24}) if (r.take()) check_v4_value(r, v << sh);
        std::vector<IPv4Address> order;
        if (r.take())
        {
            if (IPv4Address::in_addr_any().host_order() != 0 || IPv4Address::in_addr_broadcast().host_order() != 0xffffffff || IPv4Address::in_addr_loopback().host_order() != 0x7f000001 || IPv4Address().host_order() != 0) r.fail("v4:constants", "constants");
        }
    }
    r.section("v6 text");
    // every sequence of tokens
    {
        std::vector<std::string> const toks {":", "::", "0", "1", "ffff", "10000", "aB", "g"};
        std::vector<std::size_t> idx;
        for (std::size_t n = 0; n <= (T ? 7u : 6u); ++n)
        {
            idx.assign(n, 0);
            for (;;)
            {
                if (r.take())
                {
                    std::string s;
                    for (auto k : idx) s += toks[k];
                    check_v6_text(r, s);
                }
                std::size_t k = n;
                while (k > 0 && ++idx[k - 1] == toks.size()) idx[--k] = 0;
                if (k == 0) break;
            }
        }
    }
    // n groups with separators each ":" or "::" or none/junk at the ends, n up to 9
    for (std::size_t n = 1; n <= 9; ++n)
        for (std::uint32_t dbl = 0; dbl < (1u << (n - 1)); ++dbl)
            for (char const *pre : {"", ":", "::", ":::", "[", " "})
                for (char const *post : {"", ":", "::", ":::", "]", "%1", " "})
                    for (int z = 0; z < 3; ++z)
                        if (r.take())
                        {
                            std::string s = pre;
                            for (std::size_t k = 0; k < n; ++k)
                            {
                                if (k) s += (dbl >> (k - 1)) & 1 ? "::" : ":";
                                char b[16];
                                std::snprintf(b, sizeof b, z == 2 ? "%04zx" : "%zx", z == 1 ? std::size_t(0) : 0x1a0 * k + k + 1);
                                s += b;
                            }
                            check_v6_text(r, s + post);
                        }
    // each group with each boundary number
    for (char const *g : {"0", "f", "ff", "fff", "ffff", "FFFF", "1ffff", "10000", "0000", "000f", "g", "ffffffffffffffff", "10000000000000001", "10000000000000000000000000000000a", "-1", ""})
        for (std::size_t k = 0; k < 8; ++k)
            if (r.take())
            {
                std::string s;
                for (std::size_t i = 0; i < 8; ++i) s += (i ? ":" : "") + (i == k ? std::string(g) : std::to_string(i + 1));
                check_v6_text(r, s);
                std::string t;
                for (std::size_t i = 0; i < k; ++i) t += (i ? ":" : "") + (i == k / 2 ? std::string(g) : std::to_string(i + 1));
                check_v6_text(r, t + "::" + g);
            }
    r.section("v6 value");
    // every pattern of zero / non-zero groups, with several values for the non-zero ones
    for (std::uint32_t m = 0; m < 256; ++m)
        for (std::uint16_t v : {0x0001, 0x0010, 0x0100, 0x1000, 0xffff, 0x00ff, 0xff00, 0xabcd, 0x0a0b})
            for (std::uint16_t w : {0x0001, 0x8000, 0xffff})
                if (r.take())
                {
                    std::uint8_t b[16] {};
                    for (unsigned k = 0; k < 8; ++k)
                        if (m >> k & 1) { std::uint16_t x = (k & 1) ? v : w; b[2 * k] = static_cast<std::uint8_t>(x >> 8); b[2 * k + 1] = static_cast<std::uint8_t>(x); }
                    check_v6_value(r, b);
                }
    for (unsigned k = 0; k < 16; ++k)
        for (unsigned v = 0; v < 256; ++v)
            if (r.take())
            {
                std::uint8_t b[16];
                std::memset(b, 0, 16);
                b[k] = static_cast<std::uint8_t>(v);
                check_v6_value(r, b);
                std::memset(b, 0x11, 16);
                b[k] = static_cast<std::uint8_t>(v);
                check_v6_value(r, b);
            }
    if (r.take())
    {
        std::uint8_t b[16], z[16] {}, l[16] {};
        l[15] = 1;
        IPv6Address::in_addr_any().copy(b);
        bool ok = !std::memcmp(b, z, 16);
        IPv6Address::in_addr_loopback().copy(b);
        ok = ok && !std::memcmp(b, l, 16);
        if (!ok) r.fail("v6:constants", "constants");
    }
    r.section("endpoint");
    std::vector<std::string> ports {"0", "1", "80", "65535", "65536", "99999", "", "-1", "+1", " 1", "1 ", "a", "00080", "65535x", "18446744073709551616", "18446744073709551617", "1:2"};
    for (auto const &p : ports)
    {
        for (char const *a : {"1.2.3.4", "0", "127.1", "1.2.65535", "256.1.1.1", "", ":", "[1.2.3.4]", "1.2.3.4 ", "4294967295", "1.2.3.4.5", "::1"})
            for (char const *sep : {":", "::", "", ";", " :"})
                if (r.take()) check_endpoint_text<IPv4Address>(r, std::string(a) + sep + p);
        for (char const *a : {"[::1]", "[::]", "::1", "[::1", "::1]", "[]", "[", "]", "", "[[::1]]", "[1:2:3:4:5:6:7:8]", "[1:2:3:4:5:6:7]", "[::1] ", " [::1]", "[1::2:]", "[:1::2]", "[fe80::ffff:1]", "[1.2.3.4]"})
            for (char const *sep : {":", "::", "", ";", " :"})
                if (r.take()) check_endpoint_text<IPv6Address>(r, std::string(a) + sep + p);
    }
    gen::strings(std::string("19.:"), 0, 7).each([&](std::string const &s) { if (r.take()) check_endpoint_text<IPv4Address>(r, s); });
    gen::strings(std::string("[]:1"), 0, 8).each([&](std::string const &s) { if (r.take()) check_endpoint_text<IPv6Address>(r, s); });
    for (std::uint32_t p = 0; p <= 65535; p += T ? 1 : 17)
        if (r.take())
        {
            Endpoint<IPv4Address> e4(IPv4Address(htonl(0x01020304 + p)), static_cast<std::uint16_t>(p));
            auto b4 = Endpoint<IPv4Address>::from_string(fly::string::format("{}", e4));
            if (!b4 || *b4 != e4 || b4->port() != p) r.fail("ep:port", "port %u", p);
            Endpoint<IPv6Address> e6(IPv6Address({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, static_cast<std::uint8_t>(p)}), static_cast<std::uint16_t>(p));
            auto b6 = Endpoint<IPv6Address>::from_string(fly::string::format("{}", e6));
            if (!b6 || *b6 != e6 || b6->port() != p) r.fail("ep:port", "port %u", p);
        }
    r.section("one and two edits");
    {
        // every byte put in, left out or replaced at every place; two such edits with the significant ones
        auto edits = [&](std::string const &s, std::string const &bytes, auto const &f) {
            for (std::size_t i = 0; i <= s.size(); ++i)
            {
                if (i < s.size()) f(s.substr(0, i) + s.substr(i + 1));
                for (char c : bytes)
                {
                    f(s.substr(0, i) + c + s.substr(i));
                    if (i < s.size() && s[i] != c) f(s.substr(0, i) + c + s.substr(i + 1));
                }
            }
        };
        std::string all;
        for (int c = 0; c < 256; ++c) all += static_cast<char>(c);
        auto both = [&](std::string const &s, std::string const &few, auto const &check) {
            edits(s, all, [&](std::string const &t) { if (r.take()) check(t); });
            edits(s, few, [&](std::string const &t) { if (r.take()) edits(t, few, check); });
        };
        for (char const *s : {"1.2.3.4", "255.255.255.255", "0.0.0.0", "10.20.300", "1.65536", "4294967295", "192.168.0.1"})
            both(s, T ? "0259. -" : "05.", [&](std::string const &t) { check_v4_text(r, t); });
        for (char const *s : {"::", "::1", "1::", "fe80::1", "1:2:3:4:5:6:7:8", "1:2:3::6:7:8", "::2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "ABCD:ef01:2345:6789:0:0:0:0"})
            both(s, T ? "0fF:. " : "0f:", [&](std::string const &t) { check_v6_text(r, t); });
        for (char const *s : {"1.2.3.4:5", "1.2.3.4:65535", "0:0", "10.20.300:80"})
            both(s, "05.:", [&](std::string const &t) { check_endpoint_text<IPv4Address>(r, t); });
        for (char const *s : {"[::]:0", "[::1]:65535", "[1:2:3:4:5:6:7:8]:80", "[fe80::1]:5"})
            both(s, "0:[]", [&](std::string const &t) { check_endpoint_text<IPv6Address>(r, t); });
    }
    r.sample("IPv6 text \"1::2:\" must be rejected, \"1:2:3:4:5:6:7::\" accepted as 1:2:3:4:5:6:7:0; IPv4 \"127.65530\" is 127.0.255.250");
}
