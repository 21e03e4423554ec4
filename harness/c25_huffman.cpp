// C25: Huffman coding is lossless for every input and configuration.
#include "gen.hpp"
#include "huff.hpp"
#include "mc_enum.hpp"

#include <algorithm>

static void one(mc::Run &r, std::string const &in, int kb, int len, std::string const &what)
{
    std::string enc, dec;
    bool const ok = huff_encode(in, enc, kb, len);
    // may the encoder refuse?  only if some chunk has more symbols than codes of that length exist
    bool must = kb >= 1 && len >= 1 && len <= 15;
    for (std::size_t o = 0; must && o < in.size(); o += static_cast<std::size_t>(kb) << 10)
    {
        bool seen[256] {};
        std::size_t n = 0;
        for (std::size_t i = o; i < in.size() && i < o + (static_cast<std::size_t>(kb) << 10); ++i)
            if (!seen[static_cast<unsigned char>(in[i])]) { seen[static_cast<unsigned char>(in[i])] = true; ++n; }
        if (n > (1u << len)) must = false;
    }
    r.evaluations(1);
    if (in.size() > 1) r.nontrivial();
    if (!ok)
    {
        if (must) r.fail("encode refused", "%s: %zu bytes, chunk %d KB, length limit %d: encoding fails", what.c_str(), in.size(), kb, len);
        return;
    }
    bool const back = huff_decode(enc, dec);
    if (!back) r.fail("not decodable", "%s: %zu bytes, chunk %d KB, length limit %d: encoding reported success but the output does not decode", what.c_str(), in.size(), kb, len);
    else if (dec != in)
    {
        std::size_t p = 0;
        while (p < in.size() && p < dec.size() && in[p] == dec[p]) ++p;
        r.fail("not lossless", "%s: %zu bytes, chunk %d KB, length limit %d: decodes to %zu bytes, first difference at %zu", what.c_str(), in.size(), kb, len, dec.size(), p);
    }
}

// text with the given symbol counts; order 0 sorted, 1 reversed, 2 interleaved
static std::string text(std::vector<std::size_t> const &counts, int order, int first = 'A')
{
    std::string s;
    auto const n = counts.size();
    auto const ch = [&](std::size_t k) { return static_cast<char>(first + static_cast<int>(k)); };
    if (order == 0) for (std::size_t k = 0; k < n; ++k) s.append(counts[k], ch(k));
    else if (order == 1) for (std::size_t k = n; k-- > 0;) s.append(counts[k], ch(k));
    else
    {
        auto c = counts;
        bool any = true;
        while (any)
        {
            any = false;
            for (std::size_t k = 0; k < n; ++k) if (c[k]) { s += ch(k); --c[k]; any = true; }
        }
    }
    return s;
}

void enumerate(mc::Run &r)
{
    bool const T = r.thorough();
    std::vector<int> const lens {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 255};
    r.section("short inputs");
    gen::strings(std::string("ab\xff"), 0, T ? 9 : 7).each([&](std::string const &s) {
        if (!r.take()) return;
        for (int len : {1, 2, 11, 15}) one(r, s, 1, len, mc::show(s));
    });
    if (r.take()) for (int kb : {0, 1, 2, 256, 65535}) for (int len : lens) { one(r, "hello world", kb, len, "configuration"); one(r, "", kb, len, "empty input"); one(r, std::string(40, 'x'), kb, len, "one symbol"); }
    r.section("frequency shapes");
    // all non-decreasing count sequences
    {
        std::vector<std::size_t> const steps {1, 2, 3, 5, 8, 21, 100};
        std::function<void(std::vector<std::size_t> &, std::size_t)> rec = [&](std::vector<std::size_t> &c, std::size_t from) {
            if (!c.empty() && r.take())
                for (int len = 1; len <= 8; ++len)
                    one(r, text(c, static_cast<int>(c.size() % 3)), 1, len, "counts of " + std::to_string(c.size()) + " symbols");
            if (c.size() == (T ? 8u : 7u)) return;
            for (std::size_t k = from; k < steps.size(); ++k) { c.push_back(steps[k]); rec(c, k); c.pop_back(); }
        };
        std::vector<std::size_t> c;
        rec(c, 0);
    }
    // Fibonacci and geometric shapes: the deepest trees
    for (std::size_t n = 2; n <= (T ? 24u : 21u); ++n)
        for (int len : lens)
            for (int kb : {1, 2, 64})
                for (int order : {0, 2})
                {
                    if (!r.take()) continue;
                    std::vector<std::size_t> f {1, 1};
                    while (f.size() < n) f.push_back(f[f.size() - 1] + f[f.size() - 2]);
                    one(r, text(f, order), kb, len, "fibonacci counts of " + std::to_string(n) + " symbols");
                    if (n <= 14)
                    {
                        std::vector<std::size_t> g;
                        for (std::size_t k = 0; k < n; ++k) g.push_back(std::size_t(1) << k);
                        one(r, text(g, order), kb, len, "geometric counts of " + std::to_string(n) + " symbols");
                        // a geometric spine plus a flat set of rare symbols
                        for (std::size_t m : {1u, 2u, 7u, 30u, 200u})
                        {
                            auto h = g;
                            h.insert(h.begin(), m, 1);
                            one(r, text(h, order, 0), kb, len, "geometric " + std::to_string(n) + " plus " + std::to_string(m) + " rare symbols");
                        }
                    }
                }
    // uniform alphabets of every size, and one dominant symbol
    for (std::size_t n = 1; n <= 256; ++n)
        for (int len : lens)
        {
            if (!r.take()) continue;
            one(r, text(std::vector<std::size_t>(n, 1), 0, 0), 1, len, "uniform " + std::to_string(n));
            std::vector<std::size_t> c(n, 1);
            c[n / 2] = 1000;
            one(r, text(c, 2, 0), 2, len, "dominant " + std::to_string(n));
            for (std::size_t k = 0; k < n; ++k) c[k] = k + 1;
            one(r, text(c, 0, 0), 1, len, "linear " + std::to_string(n));
        }
    r.section("chunks");
    // every sequence of up to four chunk kinds and every size around the last boundary
    auto chunk = [](int kind, std::size_t n, std::size_t salt) {
        std::string s(n, 'z');
        for (std::size_t i = 0; i < n; ++i)
        {
            std::size_t const x = (i + salt) * 2654435761u;
            if (kind == 1) s[i] = static_cast<char>(x >> 16);
            else if (kind == 2) s[i] = static_cast<char>('a' + __builtin_ctzll((i + 1) | (1ull << 12)));
            else if (kind == 3) s[i] = static_cast<char>((x >> 16) & 1);
        }
        return s;
    };
    for (int nchunks = 1; nchunks <= (T ? 4 : 3); ++nchunks)
        for (int code = 0; code < (1 << (2 * nchunks)); ++code)
            for (int d = -2; d <= 2; ++d)
                for (int kb : {1, 2})
                {
                    if (!r.take()) continue;
                    std::string s;
                    for (int k = 0; k < nchunks; ++k) s += chunk((code >> (2 * k)) & 3, static_cast<std::size_t>(kb) << 10, static_cast<std::size_t>(k));
                    if (d > 0) s += chunk((code + 1) & 3, static_cast<std::size_t>(d), 7);
                    else s.resize(s.size() - static_cast<std::size_t>(-d));
                    for (int len : {8, 11, 15}) one(r, s, kb, len, "chunk kinds " + std::to_string(code));
                }
    for (int v = 0; v < 256; ++v)
        if (r.take()) { one(r, std::string(1, static_cast<char>(v)), 1, 11, "single byte"); one(r, std::string(1025, static_cast<char>(v)), 1, 1, "single symbol over two chunks"); }
    // how often one byte can occur in a chunk: up to the whole of the largest chunk
    r.section("large counts");
    for (std::size_t base : {std::size_t(255), std::size_t(256), std::size_t(32767), std::size_t(65535), std::size_t(131071), std::size_t(262143)})
        for (std::size_t d = 0; d <= 3; ++d)
            for (int kb : {64, 65, 256, 1024})
                for (int shape = 0; shape < 4; ++shape)
                {
                    if (!r.take()) continue;
                    std::size_t const n = base + d;
                    std::vector<std::size_t> c {n};
                    if (shape == 1) c = {n, 1};
                    else if (shape == 2) c = {1, n, 2, n};
                    else if (shape == 3) c = {n, n, n, 1, 1};
                    for (int len : {2, 11, 15}) one(r, text(c, 0), kb, len, "one byte " + std::to_string(n) + " times, shape " + std::to_string(shape));
                }
    r.sample("fibonacci symbol counts 1,1,2,...,10946 with length limit 4 (refused) and 5..15 (lossless); four chunks skewed/uniform/single/binary of 1 KB with the last one byte short");
}
