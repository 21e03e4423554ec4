// C13: the JSON parser against an independent grammar, for all eight feature combinations, over all token
// sequences and byte strings up to a length, all number and string texts over their alphabets, and all
// single-byte mutations and truncations of a set of documents.
#include "mc_enum.hpp"
#include "gen.hpp"
#include "json_ref.hpp"
#include "fly/parser/json_parser.hpp"

#include <sys/resource.h>

using fly::parser::JsonParser;
using Features = JsonParser::Features;

namespace {

JsonParser &parser(unsigned f)
{
    static JsonParser p[8] = {
        JsonParser(), JsonParser(Features::AllowComments), JsonParser(Features::AllowTrailingComma),
        JsonParser(Features::AllowComments | Features::AllowTrailingComma), JsonParser(Features::AllowAnyType),
        JsonParser(Features::AllowComments | Features::AllowAnyType),
        JsonParser(Features::AllowTrailingComma | Features::AllowAnyType), JsonParser(Features::AllFeatures)};
    return p[f];
}
char const *const NAMES[8] = {"strict", "comments", "trailing", "comments+trailing", "any", "comments+any", "trailing+any", "all"};

char const *shape(std::string const &t)
{
    if (t.find('/') != t.npos) return "comment";
    if (t.find('\\') != t.npos) return "escape";
    for (unsigned char c : t) if (c < 0x20 || c > 0x7e) return "byte";
    return "plain";
}

// lean: without the combinations that neither use nor miss anything
void one(mc::Run &r, std::string const &t, bool lean = false)
{
    jref::Result const e = jref::parse(t);
    if (e.ok) r.nontrivial();
    unsigned const uses = (e.comments ? 1u : 0u) | (e.trailing ? 2u : 0u) | (e.scalar ? 4u : 0u);
    for (unsigned f = 0; f < 8; ++f)
    {
        if (lean && f != 0 && f != 7) continue;
        bool const want = e.ok && (uses & ~f) == 0;
        auto const have = parser(f).parse_string(t);
        r.evaluations(1);
        if (!have)
        {
            if (want && !e.big) r.fail(std::string("rejected:") + shape(t), "%s parser rejects %s", NAMES[f], mc::show(t).c_str());
            continue;
        }
        if (!want) { r.fail(std::string("accepted:") + shape(t), "%s parser accepts %s as %s", NAMES[f], mc::show(t).c_str(), have->serialize().c_str()); continue; }
        std::string const d = jref::differs(e.value, *have);
        if (!d.empty()) r.fail(std::string("value:") + shape(t), "%s parser reads %s as %s: %s", NAMES[f], mc::show(t).c_str(), have->serialize().c_str(), d.c_str());
    }
}

// all sequences of pieces, in a fixed frame
void sequences(mc::Run &r, std::vector<std::string> const &pieces, std::size_t lo, std::size_t hi, std::string const &before, std::string const &after, bool lean = false)
{
    for (std::size_t n = lo; n <= hi; ++n)
    {
        std::vector<std::size_t> at(n, 0);
        for (;;)
        {
            if (r.take())
            {
                std::string t = before;
                for (auto k : at) t += pieces[k];
                one(r, t + after, lean);
            }
            std::size_t k = n;
            while (k > 0 && ++at[k - 1] == pieces.size()) at[--k] = 0;
            if (k == 0) break;
        }
    }
}
std::vector<std::string> letters(std::string const &s)
{
    std::vector<std::string> v;
    for (char c : s) v.emplace_back(1, c);
    return v;
}

std::vector<std::string> documents()
{
    using namespace std::string_literals;
    return {
        R"({"a":1,"b":[true,false,null],"c":{"d":-1.5e+3,"e":"x\"\\\/\b\f\n\r\t"}})",
        R"([ 0 , -0 , 12 , -34 , 5.5 , 6E7 , 8e-9 , "" , {} , [] ])",
        "[\"\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\", \"\\u00e9\\ud83d\\ude00\"]",
        R"({"":{"":{"":[[[]]]}}})",
        "\t\r\n {\"k\" : \"v\"}\n\t ",
        "[1,//x\n2/* y **/,/**/3 // z",
        "/*a*/{/*b*/\"k\"/*c*/:/*d*/1/*e*/,/*f*/}/*g*/",
        "[1,2,]", "{\"a\":1,}", "true", "\"s\"", "null", "-12.5", "[18446744073709551615,-9223372036854775808]",
        R"({"a":1,"a":2,"\u0061":3})",
    };
}

} // namespace

void enumerate(mc::Run &r)
{
    bool const T = r.thorough();
    using namespace std::string_literals;

    r.section("tokens");
    std::vector<std::string> const tokens {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", "//x", "\n", "/**/", "\"b\""};
    sequences(r, tokens, 0, T ? 6 : 5, "", "");
    r.section("tokens within");
    sequences(r, tokens, 0, T ? 5 : 4, "[", "]");
    sequences(r, tokens, 0, T ? 5 : 4, "{\"k\":", "}");
    sequences(r, tokens, 0, 4, "{\"k\":1", "}");
    sequences(r, {"[", "]", ",", "1", "{", "}", "\"a\":"}, 5, T ? 8 : 7, "", "", true);
    sequences(r, {"/", "*", "\n", "x", "1", ","}, 0, T ? 8 : 6, "[", "]", true);
    sequences(r, {"/", "*", "\n", " ", "x"}, 0, T ? 8 : 6, "{\"a\"", ":1}", true);
    sequences(r, {"/", "*", "\n", " ", "x"}, 0, T ? 8 : 6, "[]", "", true);

    r.section("bytes");
    std::string const bytes = "[]{},:\"\\/*01-+.eExtau\n \t\v\f\x01\x1f\x7f\x80\xc3\xa9\xff"s + '\0';
    sequences(r, letters(bytes), 0, T ? 4 : 3, "", "");
    sequences(r, letters(bytes), 0, T ? 4 : 3, "[", "]");
    sequences(r, letters(bytes), 0, T ? 4 : 3, "[\"", "\"]", !T);
    sequences(r, letters(bytes), 1, 2, "{\"", "\":0}");
    std::string all;
    for (int c = 0; c < 256; ++c) all += static_cast<char>(c);
    sequences(r, letters(all), 1, 2, "", "", !T);
    sequences(r, letters(all), 1, 2, "[\"", "\"]", !T);
    sequences(r, letters(all), 1, 2, "[\"\\", "\"]", true);
    sequences(r, letters(all), 1, 2, "[1", "]", true);
    sequences(r, letters(all), 1, 1, "{\"a\":1", "}");
    sequences(r, letters(all), 1, 1, "{\"a\"", ":1}");
    sequences(r, letters(all), 1, 1, "{", "\"a\":1}");

    r.section("numbers");
    sequences(r, letters("019-+.eEx"), 1, T ? 7 : 6, "[", "]", true);
    sequences(r, {"0", "1", "-", ".", "e", "x", "p", "inf", "nan", "8", "a"}, 1, T ? 6 : 5, "", "", true);
    for (char const *sign : {"", "-"})
        for (char const *base : {"9223372036854775807", "18446744073709551615", "9999999999999999999", "99999999999999999999", "1000000000000000000000000000000", "340282366920938463463374607431768211456"})
            for (int last = -6; last <= 6; ++last)
                for (char const *tail : {"", ".0", ".5", "e0", "E+1", "e-3", "e4900", "e5000", "e-5000", "e99999999999"})
                {
                    if (!r.take()) continue;
                    // decimal text plus a small number
                    std::string d = base;
                    int carry = last;
                    for (std::size_t k = d.size(); k-- > 0 && carry != 0;)
                    {
                        int v = (d[k] - '0') + carry;
                        carry = 0;
                        while (v < 0) { v += 10; --carry; }
                        while (v > 9) { v -= 10; ++carry; }
                        d[k] = static_cast<char>('0' + v);
                    }
                    if (carry > 0) d = std::to_string(carry) + d;
                    one(r, "[" + std::string(sign) + d + tail + "]", true);
                }

    r.section("strings");
    sequences(r, {"\"", "\\", "/", "b", "u", "0", "00e9", "d83d", "de00", "\x1f", "\xc3", "\xa9", "x"}, 0, T ? 6 : 5, "[\"", "\"]", true);
    sequences(r, {"\"", "\\", "u", "0061", "d83d", "\\u", "\xff", ":"}, 0, T ? 6 : 5, "{\"", "\":1}", true);
    for (unsigned u = 0; u < 0x10000; ++u)
    {
        if (!r.take()) continue;
        char b[32];
        std::snprintf(b, sizeof b, "[\"\\u%04x\"]", u);
        one(r, b, true);
        std::snprintf(b, sizeof b, "[\"\\u%04X\"]", u);
        one(r, b, true);
    }
    for (unsigned hi : {0xd7ffu, 0xd800u, 0xd801u, 0xd8ffu, 0xdbffu, 0xdc00u, 0xdfffu, 0xe000u})
        for (unsigned lo = 0xd700; lo < 0xe100; ++lo)
        {
            if (!r.take()) continue;
            char b[40];
            std::snprintf(b, sizeof b, "[\"\\u%04x\\u%04X\"]", hi, lo);
            one(r, b, true);
        }

    r.section("mutations");
    for (std::string const &doc : documents())
    {
        for (std::size_t k = 0; k <= doc.size(); ++k)
        {
            if (r.take()) one(r, doc.substr(0, k));
            if (r.take()) one(r, doc.substr(k));
            if (k < doc.size() && r.take()) one(r, doc.substr(0, k) + doc.substr(k + 1));
            for (int c = 0; c < 256; ++c)
            {
                std::string const ch(1, static_cast<char>(c));
                if (k < doc.size() && r.take()) one(r, doc.substr(0, k) + ch + doc.substr(k + 1), !T);
                if (r.take()) one(r, doc.substr(0, k) + ch + doc.substr(k), !T);
            }
            // duplicated, removed and exchanged stretches
            for (std::size_t m = k + 1; m <= doc.size(); ++m)
            {
                if (r.take()) one(r, doc.substr(0, m) + doc.substr(k), true);
                if (r.take()) one(r, doc.substr(0, k) + doc.substr(m), true);
            }
        }
    }

    r.section("depth");
    for (std::size_t depth : {1, 2, 3, 10, 63, 64, 65, 100, 255, 256, 257, 500})
        for (char const *open : {"[", "{\"a\":", "[{\"a\":"})
            for (int less = -1; less <= 1; ++less)
            {
                if (!r.take()) continue;
                std::string t, close;
                for (std::size_t k = 0; k < depth; ++k)
                {
                    t += open;
                    for (char const *p = open; *p != 0; ++p) close = (*p == '[' ? "]" : *p == '{' ? "}" : "") + close;
                }
                t += "1";
                close.resize(close.size() + static_cast<std::size_t>(less), ']');
                one(r, t + close, true);
            }

    r.section("sizes");
    {
        auto rep = [](std::string const &x, std::size_t n) { std::string t; t.reserve(x.size() * n); while (n-- > 0) t += x; return t; };
        std::vector<std::string> const units {"x", "\xc3\xa9", "\xf0\x9f\x98\x80", "\\n", "\\u20ac", "\\ud83d\\ude00", "//"};
        for (std::size_t n : gen::sizes(T ? 300 : 130, T ? 70000 : 9000))
        {
            for (auto const &u : units) for (char const *end : {"", "\\t", "\\u0041", "\xe2\x82\xac", "\xff", "\\q", "\x01", "\\ud83d"})
            {
                if (r.take()) one(r, "[\"" + rep(u, n) + end + "\"]", true);
                if (n < 600 && r.take()) one(r, "{\"" + rep(u, n) + end + "\":1}", true);
                if (n < 600 && r.take()) one(r, "[\"" + std::string(end) + rep(u, n) + "\"]", true);
            }
            // blanks and comments
            for (char const *b : {" ", "\n", "\t\r", "/**/", "//\n", "/*\n*/ "})
            {
                if (r.take()) one(r, rep(b, n) + "[1]", true);
                if (r.take()) one(r, "[" + rep(b, n) + "1" + rep(b, n) + ",2]" + rep(b, n), true);
                if (r.take()) one(r, "{" + rep(b, n) + "\"a\"" + rep(b, n) + ":" + rep(b, n) + "1" + rep(b, n) + "}x", true);
            }
            for (char const *b : {"x", "*", "/", "/*", " *", "\xc3\xa9", "\""})
            {
                if (r.take()) one(r, "[1,/*" + rep(b, n) + "*/2]", true);
                if (r.take()) one(r, "[1,//" + rep(b, n) + "\n2]", true);
                if (r.take()) one(r, "[1] //" + rep(b, n), true);
                if (r.take()) one(r, "[1] /*" + rep(b, n), true);
            }
            // elements
            for (char const *e : {"1", "\"s\"", "[]", "{}", "null", "-1.5"})
            {
                if (r.take()) one(r, "[" + rep(std::string(e) + ",", n) + "7]", true);
                if (r.take()) one(r, "[" + rep(std::string(e) + ",", n) + "]", true);
                if (r.take()) one(r, "[" + rep(std::string(e) + ",", n) + ",]", true);
                if (n > 0 && r.take()) one(r, "[" + rep(std::string(e) + ",", n) + "1", true);
            }
            if (n < 3000 && r.take())
            {
                std::string t = "{";
                for (std::size_t k = 0; k < n; ++k) t += "\"k" + std::to_string((k * 7919) % (n + 1)) + "\":" + std::to_string(k) + ",";
                one(r, t + "\"last\":[]}", true);
                one(r, t + "}", true);
                one(r, t + "\"last\"}", true);
            }
            // digits
            for (char const *sign : {"", "-"}) for (char d : {'1', '9', '0'})
            {
                std::string const digits(n, d);
                if (n > 4000) break;
                for (auto const &t : std::vector<std::string> {"1" + digits, "1." + digits + "1", "0." + digits + "5", "1e" + digits + "1", "1e-0" + digits + "1", "1" + digits + "." + digits + "e-" + std::to_string(n), "0" + digits, digits + ".", "1." + digits + "x"})
                    if (r.take()) one(r, "[" + std::string(sign) + t + "]", true);
            }
        }
    }

    // one parser keeps nothing from one text to the next
    r.section("reuse");
    std::vector<std::string> const texts {"[1]", "{\"a\":[", "\"\\", "", "[1,2", "{}", "/*", "[\"\xff\"]", "true", "{\"a\":1}", "[1]]"};
    for (auto const &a : texts) for (auto const &b : texts)
    {
        if (!r.take()) continue;
        one(r, a);
        one(r, b);
        one(r, a);
    }
}
