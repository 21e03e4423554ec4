// An independent reading of the INI format.
#pragma once
#include "json_ref.hpp"

namespace iref {

enum class Verdict { Accept, Reject, Either };
struct Want { Verdict verdict; jref::Value value; std::string why; };

inline bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
inline std::string_view stripped(std::string_view s)
{
    while (!s.empty() && blank(s.front())) s.remove_prefix(1);
    while (!s.empty() && blank(s.back())) s.remove_suffix(1);
    return s;
}
inline bool quote_at_end(std::string_view s)
{
    return !s.empty() && (s.front() == '\'' || s.front() == '"' || s.back() == '\'' || s.back() == '"');
}
// Names and values are the contents of a JSON string.
inline bool contents(std::string_view s, std::string &out)
{
    auto e = jref::parse("\"" + std::string(s) + "\"");
    if (!e.ok || e.comments || e.value.kind != jref::Kind::String) return false;
    out = e.value.text;
    return true;
}

inline Want read(std::string_view text)
{
    Want w {Verdict::Accept, {}, {}};
    w.value.kind = jref::Kind::Object;
    jref::Value *section = nullptr;
    auto no = [&](char const *why) { w.verdict = Verdict::Reject; w.why = why; return w; };

    while (!text.empty())
    {
        std::size_t const nl = text.find('\n');
        std::string_view line = stripped(text.substr(0, nl));
        text = nl == text.npos ? std::string_view() : text.substr(nl + 1);
        if (line.empty() || line[0] == ';') continue;

        bool const opens = line.front() == '[', closes = line.back() == ']';
        if (opens != closes) return no("half a header");
        if (opens)
        {
            std::string_view const name = stripped(line.substr(1, line.size() - 2));
            if (quote_at_end(name)) return no("quoted section");
            std::string key;
            if (!contents(name, key)) return no("section contents");
            jref::Value empty;
            empty.kind = jref::Kind::Object;
            section = &(w.value.members[key] = empty);
            continue;
        }
        if (!section) return no("outside a section");
        std::size_t const eq = line.find('=');
        if (eq == line.npos) return no("no assignment");
        std::string_view const name = stripped(line.substr(0, eq));
        std::string_view value = stripped(line.substr(eq + 1));
        if (name.empty()) return no("no name");
        if (value.empty()) return no("no value");
        if (quote_at_end(name)) return no("quoted name");
        for (char q : {'\'', '"'})
        {
            bool const a = value.size() && value.front() == q, b = value.size() && value.back() == q;
            if (a != b || (a && value.size() == 1)) return no("unbalanced quote");
            if (a) value = value.substr(1, value.size() - 2);
        }
        std::string k, v;
        if (!contents(name, k)) return no("name contents");
        if (!contents(value, v)) return no("value contents");
        jref::Value leaf;
        leaf.kind = jref::Kind::String;
        leaf.text = v;
        section->members[k] = leaf;
    }
    if (!section) return no("nothing defined");
    return w;
}

} // namespace iref
