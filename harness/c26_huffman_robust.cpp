// C26: the Huffman decoder on truncated, corrupted and arbitrary streams.
#include "gen.hpp"
#include "huff.hpp"
#include "mc_enum.hpp"

#include <algorithm>

static std::vector<std::string> plains()
{
    std::vector<std::string> v {"a", "aaaaaaaa", "ab", "abracadabra", "aabbccddeeffgghh", std::string(3, '\0') + "\xff\xfe"};
    std::string skew;
    for (int k = 0; k < 8; ++k) skew.append(std::size_t(1) << k, static_cast<char>('a' + k));
    v.push_back(skew);
    v.push_back(std::string(1024, 'q') + "rst");
    std::string all;
    for (int k = 0; k < 40; ++k) all += static_cast<char>(k * 5);
    v.push_back(all);
    return v;
}
static void try_decode(mc::Run &r, std::string const &s)
{
    std::string out;
    bool const ok = huff_decode(s, out);
    r.evaluations(1);
    if (s.size() > 5) r.nontrivial();
    (void)ok;
}

void enumerate(mc::Run &r)
{
    bool const T = r.thorough();
    auto const ps = plains();
    std::vector<std::string> encs;
    for (auto const &p : ps)
        for (int len : {4, 11, 15})
        {
            std::string e;
            if (huff_encode(p, e, 1, len)) encs.push_back(e);
            else encs.push_back("");
        }
    r.section("truncation");
    for (std::size_t i = 0; i < encs.size(); ++i)
        for (std::size_t n = 0; n <= encs[i].size(); ++n)
        {
            if (!r.take()) continue;
            r.nontrivial();
            std::string out;
            bool const ok = huff_decode(encs[i].substr(0, n), out);
            auto const &p = ps[i / 3];
            if (n == encs[i].size() && n && (!ok || out != p)) r.fail("whole", "intact encoding of %zu bytes not decoded", p.size());
            if (ok && (out.size() > p.size() || p.compare(0, out.size(), out) != 0)) r.fail("truncation", "encoding %zu cut to %zu of %zu bytes decodes successfully to bytes which are not a prefix of the original", i, n, encs[i].size());
        }
    r.section("substitution");
    for (std::size_t i = 0; i < encs.size(); ++i)
        for (std::size_t n = 0; n < encs[i].size(); ++n)
        {
            if (!r.take()) continue;
            for (int v = 0; v < 256; ++v)
            {
                // chunk sizes of many megabytes are only tried a few times (they just allocate)
                if (n == 2 && v > 3 && v != 255) continue;
                if (n == 2 && i % 5 != 0) continue;
                auto s = encs[i];
                s[n] = static_cast<char>(v);
                try_decode(r, s);
            }
        }
    r.section("pairs of substitutions");
    std::vector<int> const vals {0, 1, 2, 3, 5, 7, 8, 11, 15, 16, 17, 0x7f, 0x80, 0xff};
    for (std::size_t i : {std::size_t(1), std::size_t(10), std::size_t(4), std::size_t(19)})
        for (std::size_t a = 3; a < std::min<std::size_t>(encs[i].size(), T ? 60 : 40); ++a)
        {
            if (!r.take()) continue;
            for (std::size_t b = a + 1; b < std::min<std::size_t>(encs[i].size(), T ? 60 : 40); ++b)
                for (int v : vals)
                    for (int w : vals)
                    {
                        auto s = encs[i];
                        s[a] = static_cast<char>(v);
                        s[b] = static_cast<char>(w);
                        try_decode(r, s);
                    }
        }
    // every header with up to four code-length counts out of boundary values
    r.section("arbitrary headers");
    std::vector<int> const cv {0, 1, 2, 3, 255, 256};
    for (int maxlen = 0; maxlen <= 16; ++maxlen)
        for (int nc = 0; nc <= 5; ++nc)
        {
            std::vector<std::size_t> idx(static_cast<std::size_t>(std::min(nc, 5)), 0);
            for (;;)
            {
                if (r.take())
                {
                    for (int rem : {0, 7})
                        for (int body = 0; body < 3; ++body)
                        {
                            std::string s;
                            s += static_cast<char>((0x1a << 3) | rem);
                            s += '\1';
                            s += '\0';
                            s += '\1';
                            s += static_cast<char>(maxlen);
                            s += static_cast<char>(nc == 5 ? std::min(maxlen + 1, 255) : nc);
                            for (auto k : idx) { s += static_cast<char>(cv[k] >> 8); s += static_cast<char>(cv[k]); }
                            if (nc == 5) for (int k = 5; k < maxlen + 1; ++k) { s += '\0'; s += k == maxlen ? '\2' : '\0'; }
                            for (int k = 0; k < (body == 2 ? 600 : 12); ++k) s += static_cast<char>(body == 0 ? 0 : body == 1 ? 0xff : k * 37);
                            try_decode(r, s);
                        }
                }
                std::size_t k = idx.size();
                while (k > 0 && ++idx[k - 1] == cv.size()) idx[--k] = 0;
                if (k == 0) break;
            }
        }
    r.section("short strings");
    for (int h : {0xd0, 0xd7, 0x00})
        gen::strings(std::string("\x00\x01\x02\x0f\xff", 5), 0, T ? 8 : 7).each([&](std::string const &s) { if (r.take()) try_decode(r, std::string(1, static_cast<char>(h)) + "\1" + std::string("\0\1", 2) + s); });
    r.sample("encoding of \"abracadabra\" with every byte replaced by every value; counts {0,2,256,...} with length limit 2; every truncation");
}
