// C29: documents in every encoding, from files and from strings of every character type: all short files over the
// bytes of the byte order marks, all code points, every truncation, byte and unit corruption of a set of documents,
// all short sequences of boundary units, documents around the sizes of the stream buffer, and unreadable paths.
#include "mc_enum.hpp"
#include "gen.hpp"
#include "ini_ref.hpp"
#include "fly/parser/ini_parser.hpp"
#include "fly/parser/json_parser.hpp"

#include <sys/mman.h>
#include <sys/stat.h>
#include <filesystem>
#include <fstream>

namespace {

enum Encoding { Plain, Utf8, Utf16BE, Utf16LE, Utf32BE, Utf32LE };
char const *const NAMES[] = {"UTF-8 without mark", "UTF-8", "UTF-16 BE", "UTF-16 LE", "UTF-32 BE", "UTF-32 LE"};
std::string const MARKS[] = {"", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", std::string("\0\0\xfe\xff", 4), std::string("\xff\xfe\0\0", 4)};
unsigned width(int e) { return e < Utf16BE ? 1 : e < Utf32BE ? 2 : 4; }

using Text = std::vector<std::uint32_t>;

void put8(std::string &o, std::uint32_t c)
{
    if (c < 0x80) o += static_cast<char>(c);
    else if (c < 0x800) { o += static_cast<char>(0xc0 + (c >> 6)); o += static_cast<char>(0x80 + (c & 63)); }
    else if (c < 0x10000) { o += static_cast<char>(0xe0 + (c >> 12)); o += static_cast<char>(0x80 + ((c >> 6) & 63)); o += static_cast<char>(0x80 + (c & 63)); }
    else { o += static_cast<char>(0xf0 + (c >> 18)); o += static_cast<char>(0x80 + ((c >> 12) & 63)); o += static_cast<char>(0x80 + ((c >> 6) & 63)); o += static_cast<char>(0x80 + (c & 63)); }
}
// The code units of a text; units in `raw` are taken as they are.
template <typename Unit>
std::vector<std::uint32_t> units(Text const &t)
{
    std::vector<std::uint32_t> u;
    for (auto c : t)
    {
        if constexpr (sizeof(Unit) == 1) { std::string o; put8(o, c); for (unsigned char b : o) u.push_back(b); }
        else if constexpr (sizeof(Unit) == 2)
        {
            if (c < 0x10000) u.push_back(c);
            else { u.push_back(0xd800 + ((c - 0x10000) >> 10)); u.push_back(0xdc00 + ((c - 0x10000) & 0x3ff)); }
        }
        else u.push_back(c);
    }
    return u;
}
std::vector<std::uint32_t> units(int e, Text const &t)
{
    return width(e) == 1 ? units<char>(t) : width(e) == 2 ? units<char16_t>(t) : units<char32_t>(t);
}
std::string bytes(int e, std::vector<std::uint32_t> const &u)
{
    std::string s = MARKS[e];
    for (auto v : u)
        for (unsigned k = 0; k < width(e); ++k)
        {
            unsigned const at = (e == Utf16LE || e == Utf32LE) ? k : width(e) - 1 - k;
            s += static_cast<char>((v >> (8 * at)) & 0xff);
        }
    return s;
}
// UTF-8 of code units, or nothing if they are ill-formed.
bool decode(unsigned w, std::vector<std::uint32_t> const &u, std::string &out)
{
    out.clear();
    for (std::size_t i = 0; i < u.size(); ++i)
    {
        std::uint32_t c = u[i];
        if (w == 1) { out += static_cast<char>(c); continue; }
        if (c >= 0xd800 && c <= 0xdfff)
        {
            if (w == 4 || c > 0xdbff || i + 1 == u.size() || u[i + 1] < 0xdc00 || u[i + 1] > 0xdfff) return false;
            c = 0x10000 + ((c - 0xd800) << 10) + (u[++i] - 0xdc00);
        }
        if (c > 0x10ffff) return false;
        put8(out, c);
    }
    return true;
}
// What a file holds.
bool decode(std::string const &file, std::string &out)
{
    for (int e : {Utf8, Utf32BE, Utf32LE, Utf16BE, Utf16LE})
    {
        if (file.compare(0, MARKS[e].size(), MARKS[e]) != 0) continue;
        std::string const rest = file.substr(MARKS[e].size());
        if (e == Utf8) { out = rest; return true; }
        unsigned const w = width(e);
        if (rest.size() % w) return false;
        std::vector<std::uint32_t> u;
        for (std::size_t i = 0; i < rest.size(); i += w)
        {
            std::uint32_t v = 0;
            for (unsigned k = 0; k < w; ++k)
                v |= static_cast<std::uint32_t>(static_cast<unsigned char>(rest[i + k])) << (8 * ((e == Utf16LE || e == Utf32LE) ? k : w - 1 - k));
            u.push_back(v);
        }
        return decode(w, u, out);
    }
    out = file;
    return true;
}

struct Expect { bool ok = false; bool either = false; jref::Value value; };
Expect expect(bool ini, bool decoded, std::string const &text)
{
    Expect x;
    if (!decoded) return x;
    // ill-formed bytes where no value shows them (in a comment)
    for (std::size_t i = 0; i < text.size();) if (!uref::next(text.data(), text.size(), i)) { x.either = true; break; }
    if (ini)
    {
        auto w = iref::read(text);
        x.ok = w.verdict == iref::Verdict::Accept;
        
        x.value = w.value;
        return x;
    }
    auto e = jref::parse(text);
    x.ok = e.ok && !e.comments && !e.trailing;
    x.either = x.either || e.big;
    x.value = e.value;
    return x;
}

fly::parser::Parser &parser(bool ini)
{
    static fly::parser::JsonParser j(fly::parser::JsonParser::Features::AllowAnyType);
    static fly::parser::IniParser i;
    if (ini) return i;
    return j;
}

void judge(mc::Run &r, bool ini, char const *from, Expect const &x, std::optional<fly::Json> const &have, std::string const &source)
{
    char const *const what = ini ? "ini" : "json";
    r.evaluations(1);
    if (x.ok) r.nontrivial();
    std::string const text = mc::show(source.substr(0, 60)) + (source.size() > 60 ? "..." : "");
    if (!have) { if (x.ok && !x.either) r.fail(std::string("rejected:") + what + ":" + from, "%s %s is rejected: %s", from, what, text.c_str()); return; }
    if (!x.ok) { r.fail(std::string("accepted:") + what + ":" + from, "%s %s is accepted: %s", from, what, text.c_str()); return; }
    std::string const d = jref::differs(x.value, *have);
    if (!d.empty()) r.fail(std::string("value:") + what + ":" + from, "%s %s: %s: %s", from, what, text.c_str(), d.c_str());
}

// A file in memory.
std::string const &store(std::string const &content)
{
    static int fd = -1;
    static std::string path;
    if (fd < 0)
    {
        fd = ::memfd_create("c29", 0);
        path = "/proc/self/fd/" + std::to_string(fd);
    }
    if (::ftruncate(fd, 0) != 0 || ::pwrite(fd, content.data(), content.size(), 0) != static_cast<ssize_t>(content.size())) std::abort();
    return path;
}
void file(mc::Run &r, bool ini, char const *from, std::string const &content)
{
    std::string text;
    bool const ok = decode(content, text);
    judge(r, ini, from, expect(ini, ok, text), parser(ini).parse_file(store(content)), content);
}
template <typename C>
void string_of(mc::Run &r, bool ini, char const *from, std::vector<std::uint32_t> const &u)
{
    std::basic_string<C> s;
    for (auto v : u) s += static_cast<C>(v);
    std::string text, shown;
    bool const ok = decode(sizeof(C), u, text);
    for (auto v : u) shown += static_cast<char>(v);
    judge(r, ini, from, expect(ini, ok, text), parser(ini).parse_string(s), shown);
}
void strings(mc::Run &r, bool ini, unsigned w, std::vector<std::uint32_t> const &u)
{
    if (w == 1) { string_of<char>(r, ini, "a char string", u); string_of<char8_t>(r, ini, "a char8_t string", u); }
    if (w == 2) string_of<char16_t>(r, ini, "a char16_t string", u);
    if (w == 4) { string_of<char32_t>(r, ini, "a char32_t string", u); string_of<wchar_t>(r, ini, "a wchar_t string", u); }
}

Text T(std::string_view ascii, std::initializer_list<std::uint32_t> more = {}, std::string_view after = "")
{
    Text t;
    for (unsigned char c : ascii) t.push_back(c);
    for (auto c : more) t.push_back(c);
    for (unsigned char c : after) t.push_back(c);
    return t;
}

} // namespace

void enumerate(mc::Run &r)
{
    bool const deep = r.thorough();

    r.section("all short files over the bytes of the marks");
    gen::strings(std::string("\0\xfe\xff\xef\xbb\xbf" "1", 7), 0, deep ? 7 : 6).each([&](std::string const &s) {
        if (r.take()) file(r, false, "a file", s);
    });
    gen::strings(std::string("\0\xfe\xff[]=\n", 7), 0, deep ? 7 : 5).each([&](std::string const &s) {
        if (r.take()) file(r, true, "a file", s);
    });
    for (int e = 0; e < 6; ++e)
        for (std::size_t n = 0; n <= MARKS[e].size(); ++n)
            gen::strings(std::string("\0\xff\xfe\xef" "1", 5), 0, deep ? 7 : 6).each([&](std::string const &s) {
                if (r.take()) file(r, false, "a file", MARKS[e].substr(0, n) + s);
            });

    struct Doc { bool ini; Text text; };
    std::vector<Doc> const docs = {
        {false, T("{\"a\":[1,true,null],\"", {0xe9, 0x20ac, 0x1f600}, "\":\"\\u0041\\n\"}")},
        {false, T("[\"", {0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff}, "\"]")},
        {false, T(" [ -1.5e3 , \"\" ]\n")},
        {false, T("1")},
        {true, T("[", {0xe9}, "]\n\xe9=x\n;c\n[t]\nn='v'")},
        {true, T("[s]\r\nname = \"", {0x20ac, 0x1f600}, " \"\r\n")},
    };

    for (auto const &d : docs)
        for (int e = 0; e < 6; ++e)
        {
            auto const u = units(e, d.text);
            std::string const b = bytes(e, u);
            r.section("documents in every encoding");
            if (r.take()) { file(r, d.ini, NAMES[e], b); if (e >= Utf8) strings(r, d.ini, width(e), u); }
            // truncated at every byte, and without every prefix
            r.section("truncations");
            for (std::size_t n = 0; n <= b.size(); ++n)
                if (r.take())
                {
                    file(r, d.ini, NAMES[e], b.substr(0, n));
                    file(r, d.ini, NAMES[e], b.substr(n));
                    file(r, d.ini, NAMES[e], MARKS[e] + b.substr(n));
                    if (n <= u.size()) strings(r, d.ini, width(e), {u.begin(), u.begin() + static_cast<long>(n)});
                }
            r.section("every byte replaced, inserted, removed");
            for (std::size_t p = 0; p <= b.size(); ++p)
                for (int v = 0; v <= 256; ++v)
                    if (r.take())
                    {
                        std::string t = b;
                        if (v == 256) { if (p < b.size()) t.erase(p, 1); file(r, d.ini, NAMES[e], t); continue; }
                        if (p < b.size()) { t[p] = static_cast<char>(v); file(r, d.ini, NAMES[e], t); }
                        t = b;
                        t.insert(p, 1, static_cast<char>(v));
                        file(r, d.ini, NAMES[e], t);
                    }
            r.section("every unit replaced, inserted, removed");
            if (e >= Utf8)
                for (std::size_t p = 0; p <= u.size(); ++p)
                    for (std::uint32_t v : {0u, 0x22u, 0x41u, 0x7fu, 0x80u, 0xbfu, 0xc0u, 0xe0u, 0xf4u, 0xffu, 0xd7ffu, 0xd800u, 0xdbffu, 0xdc00u, 0xdfffu, 0xe000u, 0xfeffu, 0xfffeu, 0xffffu, 0x10000u, 0x10ffffu, 0x110000u, 0x7fffffffu, 0x80000022u, 0xffffffffu})
                    {
                        if (width(e) < 4 && (v >> (8 * width(e)))) continue;
                        if (!r.take()) continue;
                        auto w = u;
                        if (p < u.size()) { w[p] = v; file(r, d.ini, NAMES[e], bytes(e, w)); strings(r, d.ini, width(e), w); }
                        w = u;
                        w.insert(w.begin() + static_cast<long>(p), v);
                        file(r, d.ini, NAMES[e], bytes(e, w));
                        strings(r, d.ini, width(e), w);
                    }
            // the wrong mark before the document
            r.section("unmatched marks");
            for (int o = 0; o < 6; ++o)
                if (r.take()) { file(r, d.ini, NAMES[o], MARKS[o] + b.substr(MARKS[e].size())); file(r, d.ini, NAMES[o], MARKS[o] + b); file(r, d.ini, NAMES[e], b + MARKS[o]); }
        }

    r.section("all short sequences of boundary units");
    {
        std::vector<std::uint32_t> const b16 = {0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0};
        std::vector<std::uint32_t> const b32 = {0x41, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10000, 0x10ffff, 0x110000, 0xffffffff, 0};
        for (int e = Utf16BE; e <= Utf32LE; ++e)
        {
            auto const &b = width(e) == 2 ? b16 : b32;
            for (std::size_t n = 1; n <= (deep ? 5u : 4u); ++n)
            {
                std::vector<std::size_t> at(n, 0);
                for (;;)
                {
                    if (r.take())
                    {
                        std::vector<std::uint32_t> u {'"'}, i {'[', 's', ']', '\n', 'n', '='};
                        for (auto k : at) { u.push_back(b[k]); i.push_back(b[k]); }
                        u.push_back('"');
                        file(r, false, NAMES[e], bytes(e, u)); strings(r, false, width(e), u);
                        file(r, true, NAMES[e], bytes(e, i)); strings(r, true, width(e), i);
                    }
                    std::size_t k = n;
                    while (k > 0 && ++at[k - 1] == b.size()) at[--k] = 0;
                    if (k == 0) break;
                }
            }
        }
    }

    r.section("every code point");
    for (std::uint32_t base = 0; base < 0x110000; base += 128)
    {
        if (!r.take()) continue;
        Text t = T("[s]\nn=\"");
        Text j = T("\"");
        bool surrogates = false;
        for (std::uint32_t c = base; c < base + 128; ++c)
        {
            if (c < 0x20 || c == '"' || c == '\\') continue;
            if (c >= 0xd800 && c <= 0xdfff) { surrogates = true; continue; }
            t.push_back(c); j.push_back(c);
        }
        t.push_back('"'); j.push_back('"');
        for (int e = 0; e < 6; ++e)
        {
            file(r, false, NAMES[e], bytes(e, units(e, j))); if (e >= Utf8) strings(r, false, width(e), units(e, j));
            file(r, true, NAMES[e], bytes(e, units(e, t))); if (e >= Utf8) strings(r, true, width(e), units(e, t));
        }
        if (surrogates)
            for (std::uint32_t c = base; c < base + 128; ++c)
                for (int e = 0; e < 6; ++e) { Text const l = T("\"a", {c}, "\""); file(r, false, NAMES[e], bytes(e, units(e, l))); }
    }

    r.section("sizes around the stream's buffer");
    for (int e = 0; e < 6; ++e)
        for (std::size_t size : {512u, 1024u, 2048u, 4096u, 8191u, 8192u, 12288u, 16384u, 32768u})
            for (int around = -10; around <= 10; ++around)
                for (std::uint32_t c : {0x41u, 0xe9u, 0x20acu, 0x1f600u})
                    if (r.take())
                    {
                        Text t = T("\"");
                        std::size_t const pad = (size + static_cast<std::size_t>(around + 16)) / width(e) - 12;
                        t.insert(t.end(), pad - static_cast<std::size_t>(around & 1), 'p');
                        for (int k = 0; k < 8; ++k) t.push_back(c);
                        Text w = t;
                        w.push_back('"');
                        file(r, false, NAMES[e], bytes(e, units(e, w)));
                        file(r, false, NAMES[e], bytes(e, units(e, t)));
                        std::string cut = bytes(e, units(e, w));
                        cut.pop_back();
                        file(r, false, NAMES[e], cut);
                        Text i = T("[s]\nn=");
                        i.insert(i.end(), t.begin() + 1, t.end());
                        file(r, true, NAMES[e], bytes(e, units(e, i)));
                    }

    r.section("paths which hold no document");
    for (int ini = 0; ini < 2; ++ini)
        if (r.take())
        {
            namespace fs = std::filesystem;
            char base[] = "/tmp/c29.XXXXXX";
            if (!::mkdtemp(base)) std::abort();
            fs::path const dir(base);
            fs::create_directory(dir / "d");
            fs::create_symlink(dir / "absent", dir / "dangling");
            fs::create_symlink(dir / "loop", dir / "loop");
            std::ofstream(dir / "empty").close();
            std::ofstream(dir / "good") << (ini ? "[s]\nn=v" : "[1]");
            struct { char const *name; std::string path; bool ok; } const cases[] = {
                {"missing", (dir / "absent").string(), false}, {"in a missing directory", (dir / "x" / "y").string(), false},
                {"a directory", (dir / "d").string(), false}, {"a dangling link", (dir / "dangling").string(), false},
                {"a link to itself", (dir / "loop").string(), false}, {"below a file", (dir / "good" / "x").string(), false},
                {"empty", (dir / "empty").string(), false}, {"the empty path", "", false}, {"an overlong name", (dir / std::string(300, 'x')).string(), false},
                {"/dev/null", "/dev/null", false}, {"good", (dir / "good").string(), true}};
            for (auto const &c : cases)
                for (int twice = 0; twice < 2; ++twice)
                {
                    r.evaluations(1);
                    try
                    {
                        bool const have = parser(ini).parse_file(c.path).has_value();
                        if (have != c.ok) r.fail(std::string("path:") + c.name, "%s: parse_file %s", c.name, have ? "succeeds" : "fails");
                    }
                    catch (std::exception const &x) { r.fail(std::string("path:") + c.name, "%s: parse_file throws %s", c.name, x.what()); }
                }
            for (char const *n : {"d", "dangling", "loop", "empty", "good"}) fs::remove(dir / n);
            fs::remove(dir);
        }
}
