// Independent JSON grammar (RFC 8259) over bytes, with the library's three extensions, and comparison of
// its value with a fly::Json.
#pragma once
#include "fly/types/json/json.hpp"
#include "unicode_ref.hpp"

#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace jref {

enum class Kind { Null, True, False, Signed, Unsigned, Float, Big, String, Array, Object };

struct Value
{
    Kind kind {Kind::Null};
    std::string text;                      // decoded string, or number text
    std::vector<Value> items;
    std::map<std::string, Value> members;
};

struct Result
{
    bool ok {false};
    bool comments {false}, trailing {false}, scalar {false};
    bool big {false};                      // contains a number out of range: may be rejected
    Value value;
};

class Grammar
{
public:
    explicit Grammar(std::string_view t) : s(t) {}
    Result run()
    {
        Result r;
        Value v;
        r.ok = skip() && value(v) && skip() && i == s.size();
        r.comments = m_comments;
        r.trailing = m_trailing;
        r.big = m_big;
        r.scalar = v.kind != Kind::Array && v.kind != Kind::Object;
        r.value = std::move(v);
        return r;
    }

private:
    std::string_view s;
    std::size_t i {0};
    bool m_comments {false}, m_trailing {false}, m_big {false};

    bool at(char c) const { return i < s.size() && s[i] == c; }
    bool digit(std::size_t k) const { return k < s.size() && s[k] >= '0' && s[k] <= '9'; }
    bool skip()
    {
        for (;;)
        {
            if (at(' ') || at('\t') || at('\n') || at('\r')) ++i;
            else if (at('/'))
            {
                m_comments = true;
                if (i + 1 >= s.size()) return false;
                if (s[i + 1] == '/')
                {
                    auto const e = s.find('\n', i + 2);
                    i = e == s.npos ? s.size() : e + 1;
                }
                else if (s[i + 1] == '*')
                {
                    auto const e = s.find("*/", i + 2);
                    if (e == s.npos) return false;
                    i = e + 2;
                }
                else return false;
            }
            else return true;
        }
    }
    bool value(Value &v)
    {
        if (i >= s.size()) return false;
        switch (s[i])
        {
            case '{':
            {
                v.kind = Kind::Object;
                ++i;
                if (!skip()) return false;
                if (at('}')) { ++i; return true; }
                for (;;)
                {
                    std::string k;
                    if (!at('"') || !string(k) || !skip() || !at(':')) return false;
                    ++i;
                    Value w;
                    if (!skip() || !value(w) || !skip()) return false;
                    v.members[k] = std::move(w);
                    if (at('}')) { ++i; return true; }
                    if (!at(',')) return false;
                    ++i;
                    if (!skip()) return false;
                    if (at('}')) { ++i; m_trailing = true; return true; }
                }
            }
            case '[':
            {
                v.kind = Kind::Array;
                ++i;
                if (!skip()) return false;
                if (at(']')) { ++i; return true; }
                for (;;)
                {
                    Value w;
                    if (!value(w) || !skip()) return false;
                    v.items.push_back(std::move(w));
                    if (at(']')) { ++i; return true; }
                    if (!at(',')) return false;
                    ++i;
                    if (!skip()) return false;
                    if (at(']')) { ++i; m_trailing = true; return true; }
                }
            }
            case '"': v.kind = Kind::String; return string(v.text);
            case 't': v.kind = Kind::True; return word("true");
            case 'f': v.kind = Kind::False; return word("false");
            case 'n': v.kind = Kind::Null; return word("null");
            default: return number(v);
        }
    }
    bool word(std::string_view w)
    {
        if (s.substr(i, w.size()) != w) return false;
        i += w.size();
        return true;
    }
    bool number(Value &v)
    {
        std::size_t const b = i;
        bool const neg = at('-');
        if (neg) ++i;
        if (!digit(i)) return false;
        if (s[i] == '0') ++i;
        else while (digit(i)) ++i;
        bool fl = false;
        if (at('.'))
        {
            ++i;
            fl = true;
            if (!digit(i)) return false;
            while (digit(i)) ++i;
        }
        if (at('e') || at('E'))
        {
            ++i;
            fl = true;
            if (at('+') || at('-')) ++i;
            if (!digit(i)) return false;
            while (digit(i)) ++i;
        }
        v.text = std::string(s.substr(b, i - b));
        if (fl)
        {
            v.kind = Kind::Float;
            // out of the normal range of long double: whether it is taken is up to the implementation
            errno = 0;
            (void)std::strtold(v.text.c_str(), nullptr);
            if (errno == ERANGE) { v.kind = Kind::Big; m_big = true; }
            return true;
        }
        std::string d = v.text.substr(neg ? 1 : 0);
        std::string const limit = neg ? "9223372036854775808" : "18446744073709551615";
        if (d.size() > limit.size() || (d.size() == limit.size() && d > limit)) { v.kind = Kind::Big; m_big = true; }
        else v.kind = neg ? Kind::Signed : Kind::Unsigned;
        return true;
    }
    static int hex(char c)
    {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        if (c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    }
    bool unit(std::uint32_t &u)
    {
        u = 0;
        for (int k = 0; k < 4; ++k, ++i)
        {
            if (i >= s.size() || hex(s[i]) < 0) return false;
            u = u * 16 + static_cast<std::uint32_t>(hex(s[i]));
        }
        return true;
    }
    static void put(std::string &o, std::uint32_t c)
    {
        if (c < 0x80) o += static_cast<char>(c);
        else if (c < 0x800) { o += static_cast<char>(0xc0 + (c >> 6)); o += static_cast<char>(0x80 + (c & 63)); }
        else if (c < 0x10000) { o += static_cast<char>(0xe0 + (c >> 12)); o += static_cast<char>(0x80 + ((c >> 6) & 63)); o += static_cast<char>(0x80 + (c & 63)); }
        else { o += static_cast<char>(0xf0 + (c >> 18)); o += static_cast<char>(0x80 + ((c >> 12) & 63)); o += static_cast<char>(0x80 + ((c >> 6) & 63)); o += static_cast<char>(0x80 + (c & 63)); }
    }
    bool string(std::string &o)
    {
        ++i;
        while (i < s.size())
        {
            auto const c = static_cast<unsigned char>(s[i]);
            if (c == '"') { ++i; return true; }
            if (c < 0x20) return false;
            if (c != '\\')
            {
                std::size_t const b = i;
                if (!uref::next(s.data(), s.size(), i)) return false;
                o += s.substr(b, i - b);
                continue;
            }
            if (++i >= s.size()) return false;
            switch (s[i])
            {
                case '"': case '\\': case '/': o += s[i]; ++i; break;
                case 'b': o += '\b'; ++i; break;
                case 'f': o += '\f'; ++i; break;
                case 'n': o += '\n'; ++i; break;
                case 'r': o += '\r'; ++i; break;
                case 't': o += '\t'; ++i; break;
                case 'u':
                {
                    ++i;
                    std::uint32_t a, b;
                    if (!unit(a)) return false;
                    if (a >= 0xd800 && a <= 0xdfff)
                    {
                        // half a pair names no character; such texts are not taken
                        if (a > 0xdbff || !at('\\') || i + 1 >= s.size() || s[i + 1] != 'u') return false;
                        i += 2;
                        if (!unit(b) || b < 0xdc00 || b > 0xdfff) return false;
                        a = 0x10000 + (a - 0xd800) * 1024 + (b - 0xdc00);
                    }
                    put(o, a);
                    break;
                }
                default: return false;
            }
        }
        return false;
    }
};

inline Result parse(std::string_view t) { return Grammar(t).run(); }

// "" if the same, else what differs
inline std::string differs(Value const &v, fly::Json const &j)
{
    switch (v.kind)
    {
        case Kind::Null: return j.is_null() ? "" : "not null";
        case Kind::True:
        case Kind::False: return j.is_boolean() && bool(j) == (v.kind == Kind::True) ? "" : "not the boolean";
        case Kind::Signed:
            return j.is_signed_integer() && std::int64_t(j) == std::strtoll(v.text.c_str(), nullptr, 10) ? "" : "not the signed integer " + v.text;
        case Kind::Unsigned:
            return j.is_unsigned_integer() && std::uint64_t(j) == std::strtoull(v.text.c_str(), nullptr, 10) ? "" : "not the unsigned integer " + v.text;
        case Kind::Float:
        {
            if (!j.is_float()) return "not the float " + v.text;
            long double const f = static_cast<long double>(j);
            return f == std::strtold(v.text.c_str(), nullptr) ? "" : "not the float " + v.text;
        }
        case Kind::Big:
            return j.is_float() ? "" : "not a float though " + v.text + " is out of range";
        case Kind::String:
        {
            if (!j.is_string()) return "not a string";
            return std::string(j) == v.text ? "" : "not the string";
        }
        case Kind::Array:
        {
            if (!j.is_array() || j.size() != v.items.size()) return "not an array of " + std::to_string(v.items.size());
            for (std::size_t k = 0; k < v.items.size(); ++k)
                if (auto d = differs(v.items[k], j[k]); !d.empty()) return "item " + std::to_string(k) + ": " + d;
            return "";
        }
        case Kind::Object:
        {
            if (!j.is_object() || j.size() != v.members.size()) return "not an object of " + std::to_string(v.members.size());
            auto w = v.members.begin();
            for (auto it = j.begin(); it != j.end(); ++it, ++w)
            {
                if (it.key() != w->first) return "a member is named otherwise";
                if (auto d = differs(w->second, *it); !d.empty()) return "member: " + d;
            }
            return "";
        }
    }
    return "?";
}

} // namespace jref
