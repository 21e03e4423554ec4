// C27: bit streams — every short sequence of writes and reads at every alignment, against a list of bits.
#include "fly/types/bit_stream/bit_stream_reader.hpp"
#include "fly/types/bit_stream/bit_stream_writer.hpp"
#include "mc_enum.hpp"

#include <sstream>

using Bits = std::vector<bool>;

static std::uint64_t g_seed;
static std::uint64_t junk() { g_seed = g_seed * 6364136223846793005ull + 1442695040888963407ull; return g_seed ^ (g_seed >> 29); }

// A writer together with the bits it must have produced.
struct W
{
    std::ostringstream out {std::ios::out | std::ios::binary};
    fly::BitStreamWriter w {out};
    Bits bits;
    std::string log;

    void put(int n, int kind)
    {
        std::uint64_t v = junk();
        if (kind == 1) v = ~0ull;      // everything above the wanted bits is set as well
        if (kind == 2) v = n < 64 ? (v & ((1ull << n) - 1)) : v;
        // choose the narrowest type able to hold n bits, or a wider one
        if (n == 8 && kind == 3) { w.write_byte(static_cast<std::uint8_t>(v)); }
        else if (n == 16 && kind == 3) { w.write_word(static_cast<std::uint16_t>(v)); }
        else if (n <= 8 && kind != 4) w.write_bits(static_cast<std::uint8_t>(v), static_cast<std::uint8_t>(n));
        else if (n <= 16 && kind != 4) w.write_bits(static_cast<std::uint16_t>(v), static_cast<std::uint8_t>(n));
        else if (n <= 32 && kind != 4) w.write_bits(static_cast<std::uint32_t>(v), static_cast<std::uint8_t>(n));
        else w.write_bits(v, static_cast<std::uint8_t>(n));
        for (int i = n; i-- > 0;) bits.push_back((v >> i) & 1);
        log += std::to_string(n) + (kind == 1 ? "F" : kind == 2 ? "m" : kind == 3 ? "b" : kind == 4 ? "w" : "") + " ";
    }
};

static bool check_layout(mc::Run &r, std::string const &bytes, Bits const &bits, std::string const &log)
{
    // header: magic 0x1a in the upper five bits, number of padding bits in the lower three
    std::size_t const n = (bits.size() + 7) / 8;
    unsigned const pad = static_cast<unsigned>(n * 8 - bits.size());
    bool ok = bytes.size() == n + 1 && static_cast<std::uint8_t>(bytes[0]) == ((0x1au << 3) | pad);
    for (std::size_t i = 0; ok && i < n * 8; ++i)
    {
        bool const want = i < bits.size() && bits[i];
        bool const got = (static_cast<std::uint8_t>(bytes[1 + i / 8]) >> (7 - i % 8)) & 1;
        if (want != got)
        {
            r.fail("write", "writes [%s]: bit %zu of %zu is %d in the stream", log.c_str(), i, bits.size(), got);
            return false;
        }
    }
    if (!ok) r.fail("write:shape", "writes [%s]: %zu bits gave %zu bytes, header %02x", log.c_str(), bits.size(), bytes.size(), bytes.empty() ? 0 : static_cast<std::uint8_t>(bytes[0]));
    return ok;
}

template <typename T>
static void read_one(mc::Run &r, fly::BitStreamReader &rd, Bits const &bits, std::size_t &pos, int n, bool peek, bool &ok, std::string const &log)
{
    std::size_t const avail = std::min<std::size_t>(static_cast<std::size_t>(n), bits.size() - pos);
    std::uint64_t want = 0;
    for (std::size_t i = 0; i < static_cast<std::size_t>(n); ++i) want = (want << 1) | (i < avail && bits[pos + i]);
    T got {};
    std::size_t c;
    if constexpr (sizeof(T) == 8) c = rd.read_bits(got, static_cast<std::uint8_t>(n));
    else
    {
        if (peek)
        {
            T again {};
            c = rd.peek_bits(got, static_cast<std::uint8_t>(n));
            std::size_t const c2 = rd.peek_bits(again, static_cast<std::uint8_t>(n));
            if (c2 != c || again != got) { r.fail("peek", "[%s] peek twice at bit %zu differs", log.c_str(), pos); ok = false; }
            rd.discard_bits(static_cast<std::uint8_t>(c));
        }
        else c = rd.read_bits(got, static_cast<std::uint8_t>(n));
    }
    if (c != avail || got != want)
    {
        r.fail("read", "[%s] reading %d bits at %zu of %zu: %zu bits %llx, expected %zu bits %llx", log.c_str(), n, pos, bits.size(), c, (unsigned long long)got, avail, (unsigned long long)want);
        ok = false;
    }
    pos += avail;
}

static bool read_seq(mc::Run &r, std::string const &bytes, Bits const &bits, std::vector<int> const &sizes, int kind, std::string const &log)
{
    std::istringstream in(bytes, std::ios::in | std::ios::binary);
    fly::BitStreamReader rd(in);
    std::size_t pos = 0, k = 0;
    bool ok = true;
    while (ok)
    {
        if (rd.fully_consumed() != (pos == bits.size())) { r.fail("consumed", "[%s] fully_consumed()=%d at bit %zu of %zu", log.c_str(), rd.fully_consumed(), pos, bits.size()); return false; }
        if (pos == bits.size()) break;
        int const n = sizes[k++ % sizes.size()];
        bool const peek = kind & 1;
        if (n <= 8 && !(kind & 2)) read_one<std::uint8_t>(r, rd, bits, pos, n, peek, ok, log);
        else if (n <= 16 && !(kind & 4)) read_one<std::uint16_t>(r, rd, bits, pos, n, peek, ok, log);
        else if (n <= 32) read_one<std::uint32_t>(r, rd, bits, pos, n, peek, ok, log);
        else read_one<std::uint64_t>(r, rd, bits, pos, n, peek, ok, log);
        r.transitions();
    }
    if (ok)
    {
        // nothing more is available
        std::uint8_t b = 0xff;
        std::uint16_t w = 0xffff;
        if (rd.read_byte(b) || rd.read_word(w)) r.fail("past end", "[%s] reads past the end succeed", log.c_str());
    }
    return ok;
}

// A file that takes only so many bytes, or cannot be repositioned any more.
struct Narrow : std::streambuf
{
    std::string data;
    std::size_t pos {0}, room, seeks;
    bool refused {false};
    Narrow(std::size_t room, std::size_t seeks) : room(room), seeks(seeks) {}
    bool put(char c)
    {
        if (pos >= room) { refused = true; return false; }
        if (pos == data.size()) data += c; else data[pos] = c;
        ++pos;
        return true;
    }
    int_type overflow(int_type c) override { return !traits_type::eq_int_type(c, traits_type::eof()) && put(static_cast<char>(c)) ? c : traits_type::eof(); }
    std::streamsize xsputn(char const *s, std::streamsize n) override
    {
        std::streamsize i = 0;
        while (i < n && put(s[i])) ++i;
        return i;
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override
    {
        if (seeks == 0) { refused = true; return pos_type(off_type(-1)); }
        --seeks;
        pos = static_cast<std::size_t>(off_type(p));
        return p;
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override
    {
        return seekpos(pos_type(d == std::ios_base::cur ? static_cast<off_type>(pos) + o : d == std::ios_base::end ? static_cast<off_type>(data.size()) + o : o), m);
    }
};

// Every width, every amount of room and every failing seek: a stream that lost something is reported.
static void failing(mc::Run &r, bool T)
{
    r.section("failing stream");
    for (int bits = 0; bits <= (T ? 260 : 140); ++bits)
    {
        if (!r.take()) continue;
        for (int width : {1, 7, 8, 13, 16, 31, 32, 33, 63, 64})
            for (std::size_t room = 0; room <= static_cast<std::size_t>(bits) / 8 + 3; ++room)
                for (std::size_t seeks = 0; seeks < 4; ++seeks)
                {
                    Narrow buf(room, seeks);
                    std::ostream out(&buf);
                    fly::BitStreamWriter w(out);
                    Bits all;
                    g_seed = static_cast<std::uint64_t>(bits);
                    for (int done = 0; done < bits;)
                    {
                        int const n = std::min(width, bits - done);
                        std::uint64_t const v = junk();
                        w.write_bits(v, static_cast<std::uint8_t>(n));
                        for (int i = n; i-- > 0;) all.push_back((v >> i) & 1);
                        done += n;
                    }
                    bool const ok = w.finish();
                    r.evaluations(1);
                    r.transitions();
                    std::string const log = std::to_string(bits) + " bits by " + std::to_string(width) + ", room for " + std::to_string(room) + " bytes, " + std::to_string(seeks) + " seeks";
                    if (buf.refused)
                    {
                        r.nontrivial();
                        if (ok) r.fail("failure hidden", "%s: finish() reports success although the stream refused something", log.c_str());
                    }
                    else
                    {
                        if (!ok) r.fail("false failure", "%s: finish() reports failure although the stream took everything", log.c_str());
                        check_layout(r, buf.data, all, log);
                    }
                }
        r.traces();
    }
}

void enumerate(mc::Run &r)
{
    bool const T = r.thorough();
    failing(r, T);
    r.section("write");
    std::vector<int> const kinds {0, 1, 2, 3, 4};
    // every alignment (0..63 bits already written) times every pair of widths times the value kinds
    for (int pre = 0; pre < 64; ++pre)
        for (int a = 1; a <= 64; ++a)
        {
            if (!r.take()) continue;
            for (int b = 1; b <= 64; b += (T || a == 64 || a == 1 || pre == 0) ? 1 : 7)
                for (int kind : {1, 0, 4})
                {
                    g_seed = static_cast<std::uint64_t>(pre * 4096 + a * 64 + b);
                    W w;
                    if (pre > 32) { w.put(32, 0); w.put(pre - 32, 0); }
                    else if (pre) w.put(pre, 0);
                    w.put(a, kind);
                    w.put(b, kind);
                    bool const fin = w.w.finish();
                    if (!fin) r.fail("finish", "[%s] finish() reports failure", w.log.c_str());
                    std::string const bytes = w.out.str();
                    r.transitions(3);
                    r.state(mc::hash_mix(mc::hash_mix(static_cast<std::uint64_t>(pre), static_cast<std::uint64_t>(a)), static_cast<std::uint64_t>(b)));
                    r.evaluations(1);
                    if ((pre + a) / 64 != pre / 64) r.nontrivial();
                    if (!check_layout(r, bytes, w.bits, w.log)) continue;
                    read_seq(r, bytes, w.bits, {std::max(pre, 1), a, b}, 0, w.log);
                    if (kind == 1) read_seq(r, bytes, w.bits, {a}, 1, w.log);
                }
            r.traces();
        }
    // longer sequences over boundary widths, including byte and word writes
    r.section("sequences");
    std::vector<int> const ws {1, 7, 8, 15, 16, 31, 32, 33, 63, 64};
    std::size_t const depth = T ? 5 : 4;
    std::vector<std::size_t> idx;
    for (std::size_t n = 0; n <= depth; ++n)
    {
        idx.assign(n, 0);
        for (;;)
        {
            if (r.take())
            {
                for (int kind : {0, 3})
                {
                    g_seed = mc::hash_mix(n, idx.empty() ? 0 : idx[0]);
                    W w;
                    for (auto k : idx) w.put(ws[k], kind);
                    if (!w.w.finish()) r.fail("finish", "[%s] finish() reports failure", w.log.c_str());
                    std::string const bytes = w.out.str();
                    r.transitions(n);
                    r.evaluations(1);
                    r.nontrivial(n > 1);
                    if (!check_layout(r, bytes, w.bits, w.log)) break;
                    for (auto const &sizes : std::vector<std::vector<int>> {{1}, {8}, {16}, {32}, {64}, {3, 64}, {13}, {7, 33}})
                        if (!read_seq(r, bytes, w.bits, sizes, kind == 3 ? 7 : 0, w.log)) break;
                    // finishing twice changes nothing
                    if (kind == 3) { w.w.finish(); if (w.out.str().size() != bytes.size()) r.fail("finish twice", "[%s]", w.log.c_str()); }
                }
                r.traces();
            }
            std::size_t k = n;
            while (k > 0 && ++idx[k - 1] == ws.size()) idx[--k] = 0;
            if (k == 0) break;
        }
    }
    // every stream length up to 200 bits times every pair of read widths, plain and peeking
    r.section("read");
    for (int len = 0; len <= (T ? 200 : 140); ++len)
        for (int a = 1; a <= 64; ++a)
        {
            if (!r.take()) continue;
            g_seed = static_cast<std::uint64_t>(len);
            W w;
            for (int i = 0; i < len; i += 8) w.put(std::min(8, len - i), 0);
            w.w.finish();
            std::string const bytes = w.out.str();
            for (int b = 1; b <= 64; b += T ? 1 : 3)
            {
                r.evaluations(1);
                r.nontrivial();
                read_seq(r, bytes, w.bits, {a, b}, (a ^ b) & 7, std::to_string(len) + " bits, widths " + std::to_string(a) + "," + std::to_string(b));
            }
            r.traces();
        }
    // streams that do not start with the magic number provide nothing
    r.section("header");
    for (int h = 0; h < 256; ++h)
    {
        if (!r.take()) continue;
        std::string bytes(1, static_cast<char>(h));
        bytes += "\xab\xcd";
        std::istringstream in(bytes, std::ios::in | std::ios::binary);
        fly::BitStreamReader rd(in);
        bool const good = (h >> 3) == 0x1a;
        std::uint16_t v = 0;
        auto const n = rd.read_bits(v, 16);
        if (n != (good ? 16 - (h & 7) : 0)) r.fail("header", "header %02x: %d bits readable", h, n);
        if (good && (v >> (h & 7)) != (0xabcd >> (h & 7))) r.fail("header", "header %02x: %04x", h, v);
    }
    r.sample("63 bits, then 64 bits with all higher bits of the value set, then 1 bit; read back as 63,64,1 and as peeks");
}
