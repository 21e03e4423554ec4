// C35: documents and coded files on a file system that fails.  Every call that parse_file(), encode_file() and
// decode_file() make fails in every way, alone and in pairs, and the bit streams are run over stream buffers that
// fail at every point.  Success means that everything was read and everything was written.
#include "fly/coders/base64/base64_coder.hpp"
#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/coders/huffman/huffman_encoder.hpp"
#include "fly/parser/ini_parser.hpp"
#include "fly/parser/json_parser.hpp"
#include "fly/types/bit_stream/bit_stream_reader.hpp"
#include "fly/types/bit_stream/bit_stream_writer.hpp"
#include "fly/types/json/json.hpp"
#include "mc_enum.hpp"

#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>

#include <algorithm>
#include <cerrno>
#include <functional>
#include <memory>
#include <optional>
#include <sstream>

namespace {

struct Chooser
{
    std::vector<int> pick, size;
    std::size_t pos {0};
    int choose(int n)
    {
        if (pos == pick.size()) { pick.push_back(0); size.push_back(n); }
        return pick[pos++];
    }
    bool next()
    {
        pick.resize(pos);
        size.resize(pos);
        while (!pick.empty() && pick.back() + 1 >= size.back()) { pick.pop_back(); size.pop_back(); }
        pos = 0;
        if (pick.empty()) return false;
        ++pick.back();
        return true;
    }
};

enum class Kind { OpenIn, OpenOut, Read, Write, Seek, CloseIn, CloseOut, Stat };
char const *const kind_name[] = {"open-in", "open-out", "read", "write", "seek", "close-in", "close-out", "stat"};
char const *const read_way[] = {"", "part(7)", "part(4)", "interrupted", "error once", "error for good", "part, then error for good"};
char const *const write_way[] = {"", "part", "interrupted", "full once", "full for good", "part, then full for good"};
int alternatives(Kind k)
{
    switch (k)
    {
        case Kind::Read: return 6;
        case Kind::Write: return 5;
        case Kind::Seek: return 2;      // once, for good
        case Kind::CloseOut: return 2;  // error, error with the tail lost
        default: return 1;
    }
}
// the caller need not notice these
bool benign(Kind k, int o)
{
    if (k == Kind::Read) return o <= 3;
    if (k == Kind::Write) return o <= 2;
    return k == Kind::Stat;
}

Chooser *g_choose;
bool g_on;
int g_budget, g_from, g_calls;
bool g_dead[8];
struct Fault { Kind kind; int option; int call; };
std::vector<Fault> g_faults;
std::string g_dir;
struct Open { FILE *f; std::string path; bool write; };
std::map<int, Open> g_open;

int decide(Kind k)
{
    int const call = g_calls++;
    if (g_dead[static_cast<int>(k)]) return alternatives(k);
    if (call < g_from || g_budget == 0) return 0;
    int const o = call == g_from ? 1 + g_choose->choose(alternatives(k)) : g_choose->choose(1 + alternatives(k));
    if (o != 0)
    {
        --g_budget;
        g_faults.push_back({k, o, call});
        if ((k == Kind::Read && o >= 5) || (k == Kind::Write && o >= 4) || (k == Kind::Seek && o == 2)) g_dead[static_cast<int>(k)] = true;
    }
    return o;
}
std::string faults_text()
{
    std::string s;
    for (auto const &f : g_faults)
    {
        s += std::string(s.empty() ? "" : ", ") + kind_name[static_cast<int>(f.kind)] + " (call " + std::to_string(f.call) + ")";
        if (f.kind == Kind::Read) s += std::string(": ") + read_way[f.option];
        if (f.kind == Kind::Write) s += std::string(": ") + write_way[f.option];
        if ((f.kind == Kind::Seek || f.kind == Kind::CloseOut) && f.option == 2) s += f.kind == Kind::Seek ? ": for good" : ": tail lost";
    }
    return s.empty() ? "no failure" : s;
}

template <typename F>
F next_of(char const *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
bool ours(char const *p) { return g_on && p != nullptr && std::strncmp(p, g_dir.c_str(), g_dir.size()) == 0; }
Open *mine(int fd)
{
    if (!g_on) return nullptr;
    auto it = g_open.find(fd);
    return it == g_open.end() ? nullptr : &it->second;
}
FILE *do_open(char const *path, char const *mode, char const *name)
{
    static auto const real = next_of<FILE *(*)(char const *, char const *)>("fopen");
    static auto const real64 = next_of<FILE *(*)(char const *, char const *)>("fopen64");
    auto const fn = name[5] ? real64 : real;
    if (!ours(path)) return fn(path, mode);
    bool const write = mode[0] != 'r' || std::strchr(mode, '+') != nullptr;
    std::string const p = path;
    if (decide(write ? Kind::OpenOut : Kind::OpenIn) != 0) { errno = write ? ENOSPC : EMFILE; return nullptr; }
    FILE *f = fn(path, mode);
    if (f != nullptr) g_open[fileno(f)] = {f, p, write};
    return f;
}
ssize_t raw_write(int fd, char const *p, std::size_t n)
{
    std::size_t done = 0;
    while (done < n)
    {
        long const r = syscall(SYS_write, fd, p + done, n - done);
        if (r <= 0) break;
        done += static_cast<std::size_t>(r);
    }
    return static_cast<ssize_t>(done);
}
ssize_t do_write(int fd, char const *p, std::size_t n)
{
    bool const dead = g_dead[static_cast<int>(Kind::Write)];
    switch (decide(Kind::Write))
    {
        case 0: return raw_write(fd, p, n);
        case 1: return raw_write(fd, p, n > 1 ? n / 2 : n);
        case 2: errno = EINTR; return -1;
        case 5:
            if (!dead && n > 1) return raw_write(fd, p, n / 2);
            [[fallthrough]];
        default: errno = ENOSPC; return -1;
    }
}

} // namespace

extern "C" {

FILE *fopen(char const *path, char const *mode) { return do_open(path, mode, "fopen"); }
FILE *fopen64(char const *path, char const *mode) { return do_open(path, mode, "fopen64"); }
int fclose(FILE *f)
{
    static auto const real = next_of<int (*)(FILE *)>("fclose");
    if (!g_on) return real(f);
    auto it = g_open.find(fileno(f));
    if (it == g_open.end() || it->second.f != f) return real(f);
    Open const o = it->second;
    g_open.erase(it);
    int const c = decide(o.write ? Kind::CloseOut : Kind::CloseIn);
    int const r = real(f);
    if (c == 2)
    {
        struct stat st;
        if (syscall(SYS_stat, o.path.c_str(), &st) == 0 && st.st_size > 0) (void)!truncate(o.path.c_str(), st.st_size / 2);
    }
    if (c != 0) { errno = EIO; return EOF; }
    return r;
}
ssize_t write(int fd, void const *p, std::size_t n)
{
    if (mine(fd)) return do_write(fd, static_cast<char const *>(p), n);
    return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, struct iovec const *v, int n)
{
    if (!mine(fd)) return syscall(SYS_writev, fd, v, n);
    std::string all;
    for (int i = 0; i < n; ++i) all.append(static_cast<char const *>(v[i].iov_base), v[i].iov_len);
    return do_write(fd, all.data(), all.size());
}
ssize_t read(int fd, void *p, std::size_t n)
{
    if (mine(fd) != nullptr)
    {
        bool const dead = g_dead[static_cast<int>(Kind::Read)];
        switch (decide(Kind::Read))
        {
            case 0: break;
            case 1: return syscall(SYS_read, fd, p, std::min<std::size_t>(n, 7));
            case 2: return syscall(SYS_read, fd, p, std::min<std::size_t>(n, 4));
            case 3: errno = EINTR; return -1;
            case 6:
                if (!dead) return syscall(SYS_read, fd, p, std::min<std::size_t>(n, 12));
                [[fallthrough]];
            default: errno = EIO; return -1;
        }
    }
    return syscall(SYS_read, fd, p, n);
}
static off_t do_seek(int fd, off_t off, int whence)
{
    if (mine(fd) != nullptr && decide(Kind::Seek) != 0) { errno = ESPIPE; return -1; }
    return syscall(SYS_lseek, fd, off, whence);
}
off_t lseek(int fd, off_t off, int whence) noexcept { return do_seek(fd, off, whence); }
off64_t lseek64(int fd, off64_t off, int whence) noexcept { return do_seek(fd, off, whence); }
int stat(char const *path, struct stat *st) noexcept
{
    static auto const real = next_of<int (*)(char const *, struct stat *)>("stat");
    if (ours(path) && decide(Kind::Stat) != 0) { errno = EACCES; return -1; }
    return real(path, st);
}
int stat64(char const *path, struct stat64 *st) noexcept
{
    static auto const real = next_of<int (*)(char const *, struct stat64 *)>("stat64");
    if (ours(path) && decide(Kind::Stat) != 0) { errno = EACCES; return -1; }
    return real(path, st);
}

} // extern "C"

namespace {

struct CConfig : fly::coders::CoderConfig
{
    void chunk(int kb) { m_default_huffman_encoder_chunk_size_kb = static_cast<std::uint16_t>(kb); }
    void length(int n) { m_default_huffman_encoder_max_code_length = static_cast<fly::coders::length_type>(n); }
};

void spill(std::string const &p, std::string const &s)
{
    long const fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || raw_write(static_cast<int>(fd), s.data(), s.size()) != static_cast<ssize_t>(s.size())) std::abort();
    syscall(SYS_close, fd);
}
std::optional<std::string> slurp(std::string const &p)
{
    std::string r;
    static char b[65536];
    long const fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0);
    if (fd < 0) return std::nullopt;
    for (long n; (n = syscall(SYS_read, fd, b, sizeof b)) > 0;) r.append(b, static_cast<std::size_t>(n));
    syscall(SYS_close, fd);
    return r;
}

// what an operation is said to have done: nothing, or a result
using Outcome = std::optional<std::string>;
struct Case
{
    char const *family;
    std::string name;
    std::string input;                          // contents of the input file
    std::function<Outcome(std::string const &in, std::string const &out)> run;
};

Outcome guarded(Case const &c, std::string const &in, std::string const &out, std::string &thrown)
{
    try { return c.run(in, out); }
    catch (std::exception const &e) { thrown = e.what(); }
    catch (...) { thrown = "something"; }
    return std::nullopt;
}

Outcome once(mc::Run &r, Case const &c, Outcome const *expect, Chooser &ch, int from, int budget)
{
    std::string const in = g_dir + "/in", out = g_dir + "/out";
    syscall(SYS_unlink, out.c_str());
    g_choose = &ch;
    g_from = from;
    g_budget = budget;
    g_calls = 0;
    g_faults.clear();
    g_open.clear();
    std::fill(std::begin(g_dead), std::end(g_dead), false);
    std::string thrown;
    g_on = true;
    Outcome const got = guarded(c, in, out, thrown);
    g_on = false;
    std::string const where = c.name + " with " + faults_text();
    std::string const key = std::string("C35/") + c.family;
    if (!thrown.empty()) r.fail(key + "/throws", "throws '%s' [%s]", thrown.c_str(), where.c_str());
    if (!g_open.empty()) r.fail(key + "/open", "a file is left open [%s]", where.c_str());
    if (expect != nullptr)
    {
        bool harmless = true;
        for (auto const &f : g_faults) harmless = harmless && benign(f.kind, f.option);
        if (harmless && *expect && !got) r.fail(key + "/refused", "refused although nothing was lost [%s]", where.c_str());
        if (got && !*expect) r.fail(key + "/accepted", "accepted what is refused when it is read completely [%s]", where.c_str());
        if (got && *expect && *got != **expect)
            r.fail(key + "/incomplete", "reported as done with a result of %zu bytes, complete are %zu bytes [%s]", got->size(), (**expect).size(), where.c_str());
        // the same coder or parser works again
        std::string again_thrown;
        Outcome const again = guarded(c, in, out, again_thrown);
        if (again != *expect) r.fail(key + "/again", "does not work any more after the failure [%s]", where.c_str());
    }
    if (slurp(in) != c.input) { r.fail(key + "/input", "the input file was changed [%s]", where.c_str()); spill(in, c.input); }
    return got;
}

void faults(mc::Run &r, Case const &c, int budget)
{
    spill(g_dir + "/in", c.input);
    Chooser none;
    Outcome const expect = once(r, c, nullptr, none, 1 << 30, 0);
    int const calls = g_calls;
    for (int at = 0; at < calls; ++at)
    {
        if (!r.take()) continue;
        Chooser ch;
        std::uint64_t n = 0;
        do { once(r, c, &expect, ch, at, budget); ++n; } while (ch.next());
        r.evaluations(n - 1);
        r.nontrivial(n);
        r.transitions(static_cast<std::uint64_t>(calls) * n);
        if (r.want_sample(211)) r.sample("%s: %d calls, %llu ways from call %d", c.name.c_str(), calls, static_cast<unsigned long long>(n), at);
    }
}

// ------------------------------------------------------------------------------------ inputs
std::string coded(std::u32string const &text, int enc)
{
    std::string s;
    auto put = [&](std::uint32_t v, int bytes, bool big) { for (int i = 0; i < bytes; ++i) s += static_cast<char>(v >> (8 * (big ? bytes - 1 - i : i))); };
    if (enc == 1) s = "\xef\xbb\xbf";
    if (enc >= 2) put(0xfeff, enc < 4 ? 2 : 4, enc % 2 == 0);
    for (char32_t const c : text)
    {
        if (enc >= 4) put(c, 4, enc % 2 == 0);
        else if (enc >= 2)
        {
            if (c < 0x10000) put(c, 2, enc % 2 == 0);
            else { put(0xd800 + ((c - 0x10000) >> 10), 2, enc % 2 == 0); put(0xdc00 + ((c - 0x10000) & 0x3ff), 2, enc % 2 == 0); }
        }
        else if (c < 0x80) s += static_cast<char>(c);
        else if (c < 0x800) { s += static_cast<char>(0xc0 | (c >> 6)); s += static_cast<char>(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += static_cast<char>(0xe0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
        else { s += static_cast<char>(0xf0 | (c >> 18)); s += static_cast<char>(0x80 | ((c >> 12) & 63)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
    }
    return s;
}
char const *const enc_name[] = {"UTF-8", "UTF-8 with a mark", "UTF-16BE", "UTF-16LE", "UTF-32BE", "UTF-32LE"};

std::u32string json_array(std::size_t n)
{
    std::u32string s = U"[1";
    for (std::size_t i = 0; s.size() + 2 < n; ++i) s += i % 97 == 5 ? U",\"\u00e9\U0001f600\"" : U",2";
    return s + U"]";
}
std::u32string ini_lines(std::size_t n)
{
    std::u32string s = U"[a]\n";
    for (std::uint32_t i = 0; s.size() < n; ++i)
    {
        s += U"k";
        for (std::uint32_t x = i; x; x /= 10) s += U'0' + x % 10;
        s += i % 13 == 3 ? U"=\u00e9\n" : U"=v\n";
        if (i % 50 == 49) { s += U"[s"; for (std::uint32_t x = i; x; x /= 10) s += U'0' + x % 10; s += U"]\n"; }
    }
    return s;
}
std::string bytes(std::size_t n, int kind)
{
    std::string s;
    std::uint32_t x = 12345;
    for (std::size_t i = 0; i < n; ++i)
    {
        x = x * 1664525u + 1013904223u;
        s += kind == 0 ? static_cast<char>("aaaaaabbbcd"[(x >> 16) % 11]) : static_cast<char>(x >> 24);
    }
    return s;
}

Case parse_case(bool ini, std::u32string const &text, int enc, std::string const &what)
{
    Case c;
    c.family = ini ? "parse-ini" : "parse-json";
    c.name = std::string(ini ? "INI: " : "JSON: ") + what + ", " + std::to_string(text.size()) + " characters, " + enc_name[enc];
    c.input = coded(text, enc);
    std::shared_ptr<fly::parser::Parser> p;
    if (ini) p = std::make_shared<fly::parser::IniParser>();
    else p = std::make_shared<fly::parser::JsonParser>(fly::parser::JsonParser::Features::AllFeatures);
    c.run = [p](std::string const &in, std::string const &) -> Outcome
    {
        auto v = p->parse_file(in);
        if (!v) return std::nullopt;
        return v->serialize();
    };
    return c;
}
struct Coder { std::string name; std::shared_ptr<fly::coders::Encoder> enc; std::shared_ptr<fly::coders::Decoder> dec; };
std::vector<Coder> coders()
{
    std::vector<Coder> v;
    v.push_back({"Base64", std::make_shared<fly::coders::Base64Coder>(), nullptr});
    v.back().dec = std::dynamic_pointer_cast<fly::coders::Decoder>(v.back().enc);
    for (int chunk : {1, 4, 256})
    {
        auto cc = std::make_shared<CConfig>();
        cc->chunk(chunk);
        cc->length(11);
        v.push_back({"Huffman of " + std::to_string(chunk) + "K chunks", std::make_shared<fly::coders::HuffmanEncoder>(cc), std::make_shared<fly::coders::HuffmanDecoder>()});
    }
    return v;
}
Case encode_case(Coder const &k, std::string const &data, std::string const &what)
{
    Case c;
    c.family = "encode";
    c.name = "encoding " + what + " with " + k.name;
    c.input = data;
    auto e = k.enc;
    c.run = [e](std::string const &in, std::string const &out) -> Outcome
    {
        if (!e->encode_file(in, out)) return std::nullopt;
        auto s = slurp(out);
        return s ? *s : "(no file)";
    };
    return c;
}
Case decode_case(Coder const &k, std::string const &data, std::string const &what)
{
    Case c;
    c.family = "decode";
    c.name = "decoding " + what + " with " + k.name;
    c.input = data;
    auto d = k.dec;
    c.run = [d](std::string const &in, std::string const &out) -> Outcome
    {
        if (!d->decode_file(in, out)) return std::nullopt;
        auto s = slurp(out);
        return s ? *s : "(no file)";
    };
    return c;
}

// ------------------------------------------------------------------------------------ bit streams
// a device that takes or gives so many bytes and then fails, by saying so or by throwing
struct Device : std::streambuf
{
    std::string data;
    std::size_t good;       // calls for bytes beyond this many fail
    bool raises, seekable {true};
    std::size_t at {0}, moved {0};
    bool failed {false};

    Device(std::string d, std::size_t g, bool t) : data(std::move(d)), good(g), raises(t) {}
    bool fails()
    {
        failed = true;
        if (raises) throw std::ios_base::failure("device");
        return true;
    }
    int_type overflow(int_type c) override
    {
        if (moved >= good && fails()) return traits_type::eof();
        ++moved;
        if (at < data.size()) data[at] = static_cast<char>(c); else data += static_cast<char>(c);
        ++at;
        return c;
    }
    std::streamsize xsputn(char const *s, std::streamsize n) override
    {
        std::streamsize i = 0;
        for (; i < n; ++i)
            if (traits_type::eq_int_type(overflow(traits_type::to_int_type(s[i])), traits_type::eof())) break;
        return i;
    }
    int_type underflow() override
    {
        if (at >= good && good < data.size() && fails()) return traits_type::eof();
        return at < data.size() ? traits_type::to_int_type(data[at]) : traits_type::eof();
    }
    int_type uflow() override
    {
        int_type const c = underflow();
        if (!traits_type::eq_int_type(c, traits_type::eof())) ++at;
        return c;
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        std::streamsize i = 0;
        for (; i < n; ++i)
        {
            int_type const c = uflow();
            if (traits_type::eq_int_type(c, traits_type::eof())) break;
            s[i] = traits_type::to_char_type(c);
        }
        return i;
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override
    {
        if (!seekable) { failed = true; return pos_type(off_type(-1)); }
        at = static_cast<std::size_t>(off_type(p));
        return p;
    }
};

std::vector<int> const widths[] = {{}, {1}, {8}, {3, 5}, {16, 16, 16, 16}, {7, 13, 32, 8, 1}, {32, 32}, {32, 32, 8}, {31, 32, 1, 16, 16, 16, 16, 5}};

void write_bits(fly::BitStreamWriter &w, std::vector<int> const &ops, int rounds)
{
    std::uint32_t v = 0x9e3779b9u;
    for (int i = 0; i < rounds; ++i)
        for (int n : ops)
        {
            w.write_bits(v, static_cast<fly::byte_type>(n));
            v = v * 1664525u + 1013904223u;
        }
}
void bit_streams(mc::Run &r)
{
    r.section("bit streams");
    for (auto const &ops : widths)
        for (int rounds = 0; rounds <= (r.thorough() ? 6 : 4); ++rounds)
        {
            std::string whole;
            {
                Device d({}, 1 << 20, false);
                std::ostream o(&d);
                fly::BitStreamWriter w(o);
                write_bits(w, ops, rounds);
                if (!w.finish()) r.fail("C35/bits/finish", "finish() fails on a device that works");
                whole = d.data;
            }
            for (std::size_t good = 0; good <= whole.size() + 2; ++good)
                for (int way = 0; way < 2; ++way)
                {
                    if (!r.take()) continue;
                    r.nontrivial();
                    std::string const where = "widths of set " + std::to_string(&ops - widths) + " written " + std::to_string(rounds) + " times, device fails " + (way ? "with 'cannot seek'" : "after so many bytes") + ", " + std::to_string(good) + " of " + std::to_string(whole.size());
                    // a device that is full; the first header counts, too
                    {
                        Device d({}, good, false);
                        if (way == 1) d.seekable = false;
                        std::ostream o(&d);
                        bool ok = false;
                        try
                        {
                            fly::BitStreamWriter w(o);
                            write_bits(w, ops, rounds);
                            ok = w.finish();
                        }
                        catch (...) { r.fail("C35/bits/write-throws", "writing throws [%s]", where.c_str()); }
                        if (ok && d.data != whole) r.fail("C35/bits/written", "finish() is true but %zu bytes arrived, %zu were written [%s]", d.data.size(), whole.size(), where.c_str());
                        if (ok && d.failed) r.fail("C35/bits/finished", "finish() is true although the device failed [%s]", where.c_str());
                        if (!ok && !d.failed) r.fail("C35/bits/unfinished", "finish() is false although the device worked [%s]", where.c_str());
                    }
                    // a device that cannot be read any further, by an exception as file buffers do
                    if (good <= whole.size())
                    {
                        Device d(whole, good, way == 1);
                        std::istream in(&d);
                        std::uint64_t total = 0;
                        try
                        {
                            fly::BitStreamReader reader(in);
                            for (int i = 0; i < 100000; ++i)
                            {
                                std::uint32_t v = 0;
                                auto const n = reader.read_bits(v, static_cast<fly::byte_type>(1 + i % 7));
                                total += n;
                                if (n == 0) break;
                            }
                            (void)reader.fully_consumed();
                        }
                        catch (...) { r.fail("C35/bits/read-throws", "reading throws [%s]", where.c_str()); }
                        if (total > 8 * (whole.size() - 1)) r.fail("C35/bits/invented", "%llu bits were read from %zu bytes [%s]", static_cast<unsigned long long>(total), whole.size(), where.c_str());
                        if (way == 1 && d.failed && in.good()) r.fail("C35/bits/unnoticed", "the stream is good after the device failed [%s]", where.c_str());
                    }
                }
        }
}

} // namespace

void enumerate(mc::Run &r)
{
    std::string dir = (std::getenv("MC_WORK") ? std::string(std::getenv("MC_WORK")) : std::string("/tmp")) + "/mc35XXXXXX";
    if (mkdtemp(dir.data()) == nullptr) std::abort();
    g_dir = dir;
    bool const deep = r.thorough();

    bit_streams(r);

    r.section("parsing, one failure");
    std::u32string const spaces(9000, U' ');
    for (int enc = 0; enc < 6; ++enc)
    {
        for (std::size_t n : {std::size_t(2), std::size_t(40), std::size_t(2040), std::size_t(2047), std::size_t(2048), std::size_t(4095), std::size_t(4096), std::size_t(8188), std::size_t(8191), std::size_t(8192), std::size_t(8193), std::size_t(20000), std::size_t(33000)})
        {
            faults(r, parse_case(false, json_array(n), enc, "an array"), 1);
            faults(r, parse_case(true, ini_lines(n), enc, "lines"), 1);
        }
        for (std::size_t n : {std::size_t(9000), std::size_t(20000)})
        {
            faults(r, parse_case(false, json_array(10) + std::u32string(n, U' ') + U"x", enc, "a value, blanks, and more"), 1);
            faults(r, parse_case(true, U"[a]\nb=c\n" + std::u32string(n, U'\n') + U"[", enc, "lines, blanks, and a bad line"), 1);
        }
        faults(r, parse_case(true, U"", enc, "nothing"), 1);
        faults(r, parse_case(true, U"\uff01[s]\nx=y\n", enc, "a line that resembles a mark"), 1);
        faults(r, parse_case(true, U"\n[s]\nx=y\n", enc, "a blank first line"), 1);
        faults(r, parse_case(true, U";c\n;d\n", enc, "comments"), 1);
    }
    r.section("parsing, two failures");
    for (int enc = 0; enc < 6; ++enc)
    {
        faults(r, parse_case(false, json_array(12000), enc, "an array"), 2);
        faults(r, parse_case(true, ini_lines(12000), enc, "lines"), 2);
        faults(r, parse_case(true, U"\uff01[s]\nx=y\n", enc, "a line that resembles a mark"), 2);
        faults(r, parse_case(true, U"[s]\nx=y\n", enc, "a short file"), deep ? 3 : 2);
        faults(r, parse_case(false, U"[1, 2]", enc, "a short file"), deep ? 3 : 2);
    }
    auto const all = coders();
    std::vector<std::size_t> sizes {0, 1, 3, 100, 1023, 1024, 1025, 6142, 6144, 8190, 8191, 8192, 8193, 20000};
    if (deep) sizes.insert(sizes.end(), {2048, 4095, 4096, 4097, 6143, 16382, 16383, 16384, 40000, 70000, 262144, 262145});
    for (auto const &k : all)
        for (int kind = 0; kind < 2; ++kind)
        {
            r.section("coders, one failure");
            for (std::size_t n : sizes)
            {
                std::string const data = bytes(n, kind), what = std::to_string(n) + (kind ? " mixed bytes" : " letters");
                faults(r, encode_case(k, data, what), 1);
                std::string enc;
                if (!k.enc->encode_string(data, enc)) { r.fail("C35/encode/string", "cannot encode %s", what.c_str()); continue; }
                faults(r, decode_case(k, enc, what), 1);
            }
            r.section("coders, two failures");
            for (std::size_t n : deep ? std::vector<std::size_t> {5, 9000, 20000} : std::vector<std::size_t> {5, 9000})
            {
                std::string const data = bytes(n, kind), what = std::to_string(n) + (kind ? " mixed bytes" : " letters");
                faults(r, encode_case(k, data, what), 2);
                std::string enc;
                if (k.enc->encode_string(data, enc)) faults(r, decode_case(k, enc, what), 2);
            }
        }
    for (char const *f : {"/in", "/out"}) syscall(SYS_unlink, (g_dir + f).c_str());
    syscall(SYS_rmdir, g_dir.c_str());
}
