// C14: serialise and parse again: all trees up to a size over representative leaves, every code point as
// string and key and all short texts, integer boundaries, short decimals; the text is judged by an
// independent grammar.
#include "mc_enum.hpp"
#include "gen.hpp"
#include "json_ref.hpp"
#include "fly/parser/json_parser.hpp"

using fly::Json;
using fly::parser::JsonParser;

namespace {

// the value as made, independently of fly::Json
struct Tree
{
    enum Kind { Null, True, False, Signed, Unsigned, Float, String, Array, Object } kind {Null};
    std::int64_t i {0};
    std::uint64_t u {0};
    long double f {0};
    std::string s;
    std::vector<std::pair<std::string, Tree>> items;   // key unused in arrays
};

// text for the constructors, which read JSON escapes: everything but plain ASCII escaped
std::string escaped(std::string const &s)
{
    std::string o;
    for (std::size_t i = 0; i < s.size();)
    {
        auto const c = uref::next(s.data(), s.size(), i);
        char b[16];
        if (*c >= 0x20 && *c < 0x7f && *c != '"' && *c != '\\') { o += static_cast<char>(*c); continue; }
        if (*c < 0x10000) std::snprintf(b, sizeof b, "\\u%04x", *c);
        else std::snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xd800 + ((*c - 0x10000) >> 10), 0xdc00 + ((*c - 0x10000) & 1023));
        o += b;
    }
    return o;
}
std::string utf8(std::uint32_t c)
{
    std::string o;
    if (c < 0x80) o += static_cast<char>(c);
    else if (c < 0x800) { o += static_cast<char>(0xc0 + (c >> 6)); o += static_cast<char>(0x80 + (c & 63)); }
    else if (c < 0x10000) { o += static_cast<char>(0xe0 + (c >> 12)); o += static_cast<char>(0x80 + ((c >> 6) & 63)); o += static_cast<char>(0x80 + (c & 63)); }
    else { o += static_cast<char>(0xf0 + (c >> 18)); o += static_cast<char>(0x80 + ((c >> 12) & 63)); o += static_cast<char>(0x80 + ((c >> 6) & 63)); o += static_cast<char>(0x80 + (c & 63)); }
    return o;
}

Json make(Tree const &t)
{
    switch (t.kind)
    {
        case Tree::Null: return nullptr;
        case Tree::True: return true;
        case Tree::False: return false;
        case Tree::Signed: return t.i;
        case Tree::Unsigned: return t.u;
        case Tree::Float: return t.f;
        case Tree::String: return escaped(t.s);
        case Tree::Array:
        {
            Json j = fly::json_array_type();
            for (auto const &x : t.items) j.push_back(make(x.second));
            return j;
        }
        default:
        {
            Json j = fly::json_object_type();
            for (auto const &x : t.items) j.insert_or_assign(escaped(x.first), make(x.second));
            return j;
        }
    }
}

// the value read by the grammar is the tree
bool same(Tree const &t, jref::Value const &v)
{
    using K = jref::Kind;
    switch (t.kind)
    {
        case Tree::Null: return v.kind == K::Null;
        case Tree::True: return v.kind == K::True;
        case Tree::False: return v.kind == K::False;
        case Tree::Signed: return t.i < 0 ? v.kind == K::Signed && v.text == std::to_string(t.i) : v.kind == K::Unsigned && v.text == std::to_string(t.i);
        case Tree::Unsigned: return v.kind == K::Unsigned && v.text == std::to_string(t.u);
        case Tree::Float:
            return (v.kind == K::Float || v.kind == K::Signed || v.kind == K::Unsigned) && std::strtold(v.text.c_str(), nullptr) == t.f;
        case Tree::String: return v.kind == K::String && v.text == t.s;
        case Tree::Array:
            if (v.kind != K::Array || v.items.size() != t.items.size()) return false;
            for (std::size_t k = 0; k < t.items.size(); ++k) if (!same(t.items[k].second, v.items[k])) return false;
            return true;
        default:
            if (v.kind != K::Object || v.members.size() != t.items.size()) return false;
            for (auto const &x : t.items)
            {
                auto it = v.members.find(x.first);
                if (it == v.members.end() || !same(x.second, it->second)) return false;
            }
            return true;
    }
}
// the same kinds throughout (a float may come back as an integer)
bool same(Tree const &t, Json const &j)
{
    switch (t.kind)
    {
        case Tree::Null: return j.is_null();
        case Tree::True: return j.is_boolean() && bool(j);
        case Tree::False: return j.is_boolean() && !bool(j);
        case Tree::Signed: return t.i < 0 ? j.is_signed_integer() && std::int64_t(j) == t.i : j.is_unsigned_integer() && std::uint64_t(j) == static_cast<std::uint64_t>(t.i);
        case Tree::Unsigned: return j.is_unsigned_integer() && std::uint64_t(j) == t.u;
        case Tree::Float: return (j.is_float() || j.is_signed_integer() || j.is_unsigned_integer()) && static_cast<long double>(j) == t.f;
        case Tree::String: return j.is_string() && std::string(j) == t.s;
        case Tree::Array:
            if (!j.is_array() || j.size() != t.items.size()) return false;
            for (std::size_t k = 0; k < t.items.size(); ++k) if (!same(t.items[k].second, j[k])) return false;
            return true;
        default:
            if (!j.is_object() || j.size() != t.items.size()) return false;
            for (auto it = j.begin(); it != j.end(); ++it)
            {
                bool found = false;
                for (auto const &x : t.items) found = found || (x.first == it.key() && same(x.second, *it));
                if (!found) return false;
            }
            return true;
    }
}

void one(mc::Run &r, Tree const &t, char const *what)
{
    Json const j = make(t);
    std::string const text = j.serialize();
    for (unsigned char c : text)
        if (c < 0x20 || c > 0x7e) { r.fail(std::string("not safe:") + what, "serialised text %s is not printable ASCII", mc::show(text).c_str()); return; }
    jref::Result const e = jref::parse(text);
    if (!e.ok || e.comments || e.trailing) { r.fail(std::string("not JSON:") + what, "serialised text %s is not JSON", mc::show(text).c_str()); return; }
    if (!same(t, e.value)) { r.fail(std::string("text:") + what, "serialised text %s says something else", mc::show(text).c_str()); return; }
    static JsonParser parser(JsonParser::Features::AllowAnyType);
    auto const back = parser.parse_string(text);
    if (!back) { r.fail(std::string("refused:") + what, "the parser refuses the serialised text %s", mc::show(text).c_str()); return; }
    if (!same(t, *back)) r.fail(std::string("value:") + what, "%s comes back as another value", mc::show(text).c_str());
    if (!(*back == j) || *back != j) r.fail(std::string("equality:") + what, "%s comes back unequal", mc::show(text).c_str());
    std::string const again = back->serialize();
    // minus zero comes back as the integer zero
    if (again != text && text != "-0") r.fail(std::string("again:") + what, "%s is serialised again as %s", mc::show(text).c_str(), mc::show(again).c_str());
}

std::vector<Tree> leaves(bool few)
{
    std::vector<Tree> v;
    auto add = [&](Tree t) { v.push_back(std::move(t)); };
    add({.kind = Tree::Null});
    add({.kind = Tree::True});
    add({.kind = Tree::Unsigned, .u = UINT64_MAX});
    add({.kind = Tree::Signed, .i = INT64_MIN});
    add({.kind = Tree::String, .s = "\"\\"});
    add({.kind = Tree::Float, .f = 1.5L});
    if (few) return v;
    add({.kind = Tree::False});
    add({.kind = Tree::Signed, .i = 0});
    add({.kind = Tree::String, .s = ""});
    add({.kind = Tree::String, .s = "\xf0\x9f\x98\x80\x01"});
    return v;
}

// all trees of exactly n nodes
std::vector<Tree> const &trees(std::size_t n, bool few)
{
    static std::map<std::pair<std::size_t, bool>, std::vector<Tree>> memo;
    auto const key = std::make_pair(n, few);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    std::vector<Tree> v;
    if (n == 1)
    {
        v = leaves(few);
        v.push_back({.kind = Tree::Array});
        v.push_back({.kind = Tree::Object});
    }
    else
    {
        static char const *const keys[] = {"", "k\"\n", "\xe2\x82\xac"};
        // one, two or three children
        for (auto const &a : trees(n - 1, few))
        {
            Tree t {.kind = Tree::Array};
            t.items.push_back({"", a});
            v.push_back(t);
            for (char const *k : keys) { t.kind = Tree::Object; t.items[0].first = k; v.push_back(t); }
        }
        for (std::size_t x = 1; x + 1 < n; ++x)
            for (auto const &a : trees(x, few)) for (auto const &b : trees(n - 1 - x, few))
            {
                Tree t {.kind = Tree::Array};
                t.items.push_back({"b", a});
                t.items.push_back({"a\\", b});
                v.push_back(t);
                t.kind = Tree::Object;
                v.push_back(t);
            }
        if (n == 4)
            for (auto const &a : trees(1, few)) for (auto const &b : trees(1, few)) for (auto const &c : trees(1, few))
            {
                Tree t {.kind = Tree::Array};
                t.items.push_back({"c", a});
                t.items.push_back({"", b});
                t.items.push_back({"\x7f", c});
                v.push_back(t);
                t.kind = Tree::Object;
                v.push_back(t);
            }
    }
    return memo.emplace(key, std::move(v)).first->second;
}

} // namespace

void enumerate(mc::Run &r)
{
    bool const T = r.thorough();

    r.section("code points");
    for (std::uint32_t c = 0; c < 0x110000; ++c)
    {
        if (c >= 0xd800 && c <= 0xdfff) continue;
        if (!r.take()) continue;
        if (c < 0x20 || c >= 0x7f) r.nontrivial();
        std::string const s = utf8(c);
        Tree t {.kind = Tree::Object};
        t.items.push_back({s, {.kind = Tree::String, .s = s}});
        t.items.push_back({"a" + s + "b", {.kind = Tree::String, .s = s + "1" + s}});
        one(r, t, "code point");
    }

    r.section("texts");
    std::vector<std::uint32_t> const points {0, 1, 8, 9, 10, 12, 13, 0x1f, ' ', '"', '/', '\\', 'b', 'u', '0', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff};
    for (std::size_t n = 0; n <= (T ? 4u : 3u); ++n)
    {
        std::vector<std::size_t> at(n, 0);
        for (;;)
        {
            if (r.take())
            {
                r.nontrivial();
                std::string s;
                for (auto k : at) s += utf8(points[k]);
                one(r, {.kind = Tree::String, .s = s}, "string");
                Tree t {.kind = Tree::Object};
                t.items.push_back({s, {.kind = Tree::Null}});
                one(r, t, "key");
            }
            std::size_t k = n;
            while (k > 0 && ++at[k - 1] == points.size()) at[--k] = 0;
            if (k == 0) break;
        }
    }

    r.section("integers");
    for (int bit = 0; bit <= 64; ++bit)
        for (int d = -3; d <= 3; ++d)
        {
            if (!r.take()) continue;
            r.nontrivial();
            std::uint64_t const u = (bit == 64 ? 0 : std::uint64_t {1} << bit) + static_cast<std::uint64_t>(static_cast<std::int64_t>(d));
            one(r, {.kind = Tree::Unsigned, .u = u}, "integer");
            one(r, {.kind = Tree::Signed, .i = static_cast<std::int64_t>(u)}, "integer");
            one(r, {.kind = Tree::Signed, .i = static_cast<std::int64_t>(0 - u)}, "integer");
        }
    for (std::uint64_t p = 1, n = 0; n < 20; ++n, p *= 10)
        for (int d = -1; d <= 1; ++d)
        {
            if (!r.take()) continue;
            std::uint64_t const u = p + static_cast<std::uint64_t>(static_cast<std::int64_t>(d));
            one(r, {.kind = Tree::Unsigned, .u = u}, "integer");
            one(r, {.kind = Tree::Signed, .i = -static_cast<std::int64_t>(u)}, "integer");
        }

    r.section("decimals");
    for (int e = -40; e <= 40; ++e)
    {
        bool const all = e >= -8 && e <= 8;
        for (int m = 0; m <= 999999; m += (m < 1100 || (m > 99900 && m < 100100) || m > 999900) ? 1 : T ? (all ? 7 : 101) : (all ? 101 : 1009))
        {
            if (!r.take()) continue;
            r.nontrivial();
            std::string const s = std::to_string(m) + "e" + std::to_string(e);
            one(r, {.kind = Tree::Float, .f = std::strtold(s.c_str(), nullptr)}, "decimal");
            one(r, {.kind = Tree::Float, .f = -std::strtold(s.c_str(), nullptr)}, "decimal");
        }
    }

    r.section("trees");
    for (std::size_t n = 1; n <= (T ? 5u : 4u); ++n)
        for (auto const &t : trees(n, n > 3))
        {
            if (!r.take()) continue;
            if (!t.items.empty()) r.nontrivial();
            one(r, t, "tree");
        }

    r.section("sizes");
    std::vector<std::string> const units {"x", "\n", "\x01", "\"", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
    for (std::size_t n : gen::sizes(T ? 300 : 130, T ? 70000 : 9000))
    {
        for (auto const &u : units)
        {
            if (!r.take()) continue;
            r.nontrivial();
            std::string s;
            for (std::size_t k = 0; k < n; ++k) s += u;
            for (char const *end : {"", "y", "\\", "\xc3\xbf", "\xf4\x8f\xbf\xbf"}) one(r, {.kind = Tree::String, .s = s + end}, "long string");
            if (n > 4200) continue;
            Tree t {.kind = Tree::Object};
            t.items.push_back({s, {.kind = Tree::String, .s = "z" + s}});
            t.items.push_back({s + "b", {.kind = Tree::Array}});
            one(r, t, "long key");
        }
        if (n <= 4200)
            for (auto const &leaf : leaves(false))
            {
                if (!r.take()) continue;
                Tree t {.kind = Tree::Array};
                for (std::size_t k = 0; k < n; ++k) t.items.push_back({"", leaf});
                one(r, t, "long array");
                if (n > 1100) continue;
                t.kind = Tree::Object;
                for (std::size_t k = 0; k < n; ++k) t.items[k].first = std::to_string((k * 7919) % (n + 1)) + "-" + std::to_string(k);
                one(r, t, "large object");
            }
        if (n <= 520)
            for (bool object : {false, true})
            {
                if (!r.take()) continue;
                Tree t {.kind = Tree::Unsigned, .u = 7};
                for (std::size_t k = 0; k < n; ++k)
                {
                    Tree up {.kind = object && k % 2 == 0 ? Tree::Object : Tree::Array};
                    up.items.push_back({"k", std::move(t)});
                    t = std::move(up);
                }
                one(r, t, "depth");
            }
    }
}
