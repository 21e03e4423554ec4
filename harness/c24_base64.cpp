// C24: Base64 against an independent encoder and acceptor.
#include "fly/coders/base64/base64_coder.hpp"
#include "gen.hpp"
#include "mc_enum.hpp"

#include <optional>

#include <fstream>
#include <memory>
#include <sstream>

static char const kSym[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string ref_encode(std::string const &d)
{
    std::string out;
    out.reserve(d.size() * 4 / 3 + 4);
    std::uint32_t acc = 0;
    int bits = 0;
    for (unsigned char c : d)
    {
        acc = (acc << 8) | c;
        bits += 8;
        while (bits >= 6) { bits -= 6; out += kSym[(acc >> bits) & 63]; }
    }
    if (bits) out += kSym[(acc << (6 - bits)) & 63];
    while (out.size() % 4) out += '=';
    return out;
}
static int sym(unsigned char c)
{
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    return c == '+' ? 62 : c == '/' ? 63 : -1;
}
static std::optional<std::string> ref_decode(std::string const &e)
{
    if (e.size() % 4) return {};
    std::size_t pad = 0;
    if (!e.empty() && e.back() == '=') pad = e[e.size() - 2] == '=' ? 2 : 1;
    std::string out;
    out.reserve(e.size());
    std::uint32_t acc = 0;
    int bits = 0;
    for (std::size_t i = 0; i < e.size() - pad; ++i)
    {
        int const v = sym(static_cast<unsigned char>(e[i]));
        if (v < 0) return {};
        acc = (acc << 6) | static_cast<std::uint32_t>(v);
        bits += 6;
        if (bits >= 8) { bits -= 8; out += static_cast<char>(acc >> bits); }
    }
    return out;
}

static fly::coders::Base64Coder &coder()
{
    static auto const c = std::make_unique<fly::coders::Base64Coder>();
    return *c;
}
static void enc(mc::Run &r, std::string const &d)
{
    std::string e, back;
    auto const want = ref_encode(d);
    if (!coder().encode_string(d, e) || e != want) { r.fail("encode", "encoding %zu bytes %s gives %s", d.size(), mc::show(d.substr(0, 8)).c_str(), mc::show(e.substr(0, 12)).c_str()); return; }
    if (!coder().decode_string(e, back) || back != d) r.fail("roundtrip", "decoding the encoding of %zu bytes %s fails or differs", d.size(), mc::show(d.substr(0, 8)).c_str());
}
static void dec(mc::Run &r, std::string const &e)
{
    auto const want = ref_decode(e);
    std::string out = "untouched";
    bool const ok = coder().decode_string(e, out);
    if (want) r.nontrivial();
    if (ok != want.has_value()) r.fail(ok ? "accepts" : "rejects", "decode of %zu symbols %s...%s %s", e.size(), mc::show(e.substr(0, 12)).c_str(), mc::show(e.size() > 12 ? e.substr(e.size() - 8) : std::string()).c_str(), ok ? "succeeds" : "fails");
    else if (ok && out != *want) r.fail("decode", "decode of %s gives %s", mc::show(e.substr(0, 16)).c_str(), mc::show(out.substr(0, 12)).c_str());
}
static std::string pattern(std::size_t n)
{
    std::string s(n, '\0');
    std::uint64_t x = 88172645463325252ull;
    for (std::size_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = static_cast<char>(x >> 24); }
    return s;
}

void enumerate(mc::Run &r)
{
    bool const T = r.thorough();
    r.section("encode short");
    if (r.take()) enc(r, "");
    for (int a = 0; a < 256; ++a)
    {
        if (r.take()) { r.nontrivial(); enc(r, std::string(1, static_cast<char>(a))); }
        for (int b = 0; b < 256; b += T ? 1 : ((a % 5) ? 3 : 1))
            if (r.take()) { r.nontrivial(); enc(r, {static_cast<char>(a), static_cast<char>(b)}); }
    }
    // length 3..5: every byte value in every position against three backgrounds
    for (std::size_t n = 3; n <= 7; ++n)
        for (std::size_t p = 0; p < n; ++p)
            for (int bg : {0, 0xff, 0x5a})
                for (int v = 0; v < 256; ++v)
                    if (r.take()) { std::string s(n, static_cast<char>(bg)); s[p] = static_cast<char>(v); r.nontrivial(); enc(r, s); }
    r.section("decode short");
    gen::strings(std::string("A/=-\x80"), 0, T ? 8 : 7).each([&](std::string const &s) { if (r.take()) dec(r, s); });
    gen::strings(std::string("Q="), 8, T ? 16 : 12).each([&](std::string const &s) { if (r.take()) dec(r, s); });
    for (std::string base : {"QUJD", "QUI=", "QQ==", "QUJDRERF", "QUJDRUY=", "QUJDRQ=="})
        for (std::size_t p = 0; p < base.size(); ++p)
            for (int v = 0; v < 256; ++v)
                if (r.take()) { auto s = base; s[p] = static_cast<char>(v); dec(r, s); }
    for (std::string base : {"QUJD", "QUI=", "QQ=="})
        for (std::size_t p = 0; p <= base.size(); ++p)
            for (int v = 0; v < 256; ++v)
                if (r.take()) { auto s = base; s.insert(p, 1, static_cast<char>(v)); dec(r, s); auto u = "QUJD" + s; dec(r, u); }
    // buffer boundaries: decoded buffer 196608 bytes, encoded buffer 262144 symbols
    r.section("boundaries");
    std::size_t const D = 196608, E = 262144;
    for (std::size_t k = 1; k <= (T ? 3u : 2u); ++k)
        for (int d = -7; d <= 7; ++d)
            if (r.take()) { r.nontrivial(); enc(r, pattern(k * D + static_cast<std::size_t>(d))); }
    {
        std::string const body = ref_encode(pattern(2 * D + 9));
        for (std::size_t k = 1; k <= 2; ++k)
            for (int g = -2; g <= 2; ++g) // texts that end 2 groups before .. 2 groups behind the boundary
            {
                std::string const base = body.substr(0, k * E + static_cast<std::size_t>(4 * g));
                for (std::string tail : {"", "=", "==", "===", "Q", "QQ", "QQ=", "Q==", "QQ==", "QQQ=", "QQ=Q", "Q===", "====", "QQQ=QQQQ", "QQ==QQ=="})
                    if (r.take()) dec(r, base + tail);
                // damage each of the eight symbols at either end of the first buffer
                for (int p = -8; p < 8; ++p)
                    for (char v : {'=', '-', '\x80', '\0', '\n'})
                        if (r.take())
                        {
                            std::size_t const at = k * E + static_cast<std::size_t>(p);
                            if (at < base.size()) { auto s = base; s[at] = v; dec(r, s); }
                        }
            }
    }
    r.section("sizes");
    for (std::size_t n : gen::sizes(T ? 1100 : 300, T ? 300000 : 70000))
        for (int fill : {-1, 0, 0xff, 0x80})
        {
            if (!r.take()) continue;
            r.nontrivial();
            std::string const d = fill < 0 ? pattern(n) : std::string(n, static_cast<char>(fill));
            enc(r, d);
            std::string const e = ref_encode(d);
            for (std::size_t cut = 1; cut <= 4 && cut <= e.size(); ++cut) dec(r, e.substr(0, e.size() - cut));
            for (char const *tail : {"=", "==", "====", "QQ==", "QUI=", "QUJD", "\n", "\r\n", " "}) dec(r, e + tail);
            for (char bad : {'=', '-', '\n', '\0', '\xff'})
                for (std::size_t at : {std::size_t(0), e.size() / 2, e.size() - 1, e.size() - 2, e.size() - 5})
                    if (at < e.size()) { auto t = e; t[at] = bad; dec(r, t); }
        }
    // files
    r.section("files");
    char const *work = std::getenv("MC_WORK");
    std::string const dir = work ? work : "/tmp";
    for (std::size_t n : {std::size_t(0), std::size_t(1), std::size_t(2), std::size_t(3), std::size_t(100), D - 1, D, D + 1})
    {
        if (!r.take()) continue;
        r.nontrivial();
        std::string const d = pattern(n), base = dir + "/b64-" + std::to_string(getpid());
        { std::ofstream f(base, std::ios::binary); f << d; }
        std::string e, b;
        auto slurp = [](std::string const &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); };
        if (!coder().encode_file(base, base + ".e") || (e = slurp(base + ".e")) != ref_encode(d)) r.fail("file encode", "%zu bytes", n);
        else if (!coder().decode_file(base + ".e", base + ".d") || slurp(base + ".d") != d) r.fail("file decode", "%zu bytes", n);
        if (coder().encode_file(base + ".missing", base + ".x") || coder().decode_file(base + ".missing", base + ".x")) r.fail("file missing", "a missing file is accepted");
        for (char const *x : {"", ".e", ".d", ".x"}) unlink((base + x).c_str());
    }
    r.sample("a text of exactly 262144 symbols ending in \"QQ==\"; \"QUJD\" with each byte value in each position; every text up to length 7 over {A,/,=,-,0x80}");
}
